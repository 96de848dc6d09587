"""Behaviours of Live.tla: objects, documents and files of one program."""
import copy
import io
import json
import os
import shutil
import tempfile

import numpy as np

import gen
from objects import FREE, Mismatch, UserArray, build
from session import call

import paragami


# ---------------------------------------------------------------- inputs
def strip(t):
    """A description without the generator's remarks."""
    t = {k: copy.deepcopy(v) for k, v in t.items() if k != 'own'}
    if t['k'] == 'dict':
        t['subs'] = [strip(s) for s in t['subs']]
    elif t['k'] == 'parr':
        t['base'] = strip(t['base'])
    return t


def owned(t, own):
    t = copy.deepcopy(t)
    for _, n in gen.paths(t):
        n['own'] = own
    return t


def reach(t, path=()):
    """Nodes that can be reached through the public interface."""
    yield list(path), t
    if t['k'] == 'dict':
        for i, s in enumerate(t['subs']):
            for x in reach(s, tuple(path) + (i + 1,)):
                yield x
    elif t['k'] == 'parr' and t['own']:
        for x in reach(t['base'], tuple(path) + (0,)):
            yield x


def history(r, length, want=None):
    objs, docs, files, ops, opts = [], [], {}, [], []

    def tree(depth=None, maxlen=10):
        t = gen.rand_tree(r, r.choice([0, 1, 2, 2]) if depth is None else depth, maxlen=maxlen,
                          want=r.choice([None, 'dict', 'dict', 'parr']) if depth is None else None)
        gen.set_defaults(r, t)
        return owned(t, True)

    def emit(o, opt=None):
        ops.append(o)
        opts.append(opt or {})
    for n in range(length):
        if not objs:
            kind = 'make'
        else:
            kind = r.choice(['make', 'text', 'text', 'revive', 'revive', 'revive', 'write', 'read',
                             'set', 'set', 'set', 'put', 'drop']
                            + (['write'] * 5 + ['read'] * 5 if want == 'files' else []))
        if kind in ('make', 'revive', 'read') and len(objs) >= 6:
            kind = r.choice(['set', 'text', 'put'])
        i = r.randrange(len(objs)) if objs else 0
        how = {'how': r.choice(['registry', 'registry', 'class', 'transport'])}
        if kind == 'make':
            t = copy.deepcopy(r.choice(objs)) if objs and r.random() < .5 else tree()
            t = owned(t, True)
            objs.append(t)
            emit({'op': 'make', 'p': strip(t)})
        elif kind == 'text':
            docs.append(copy.deepcopy(objs[i]))
            emit({'op': 'text', 'i': i + 1})
        elif kind == 'revive' and docs:
            d = r.choice([len(docs) - 1, r.randrange(len(docs))])
            objs.append(owned(docs[d], False))
            emit({'op': 'revive', 'd': d + 1}, how)
        elif kind == 'write':
            f = r.choice('ab')
            files[f] = copy.deepcopy(objs[i])
            emit({'op': 'write', 'i': i + 1, 'file': f, 'n': n})
        elif kind == 'read' and files:
            f = r.choice(list(files))
            objs.append(owned(files[f], False))
            emit({'op': 'read', 'file': f})
        elif kind == 'set':
            path, node = r.choice(list(reach(objs[i])))
            field = 'dv' if 'dv' in node and r.random() < .4 else 'fd'
            val = (not node['dv']) if field == 'dv' else r.choice([f for f in 'NTF' if f != node['fd']])
            node[field] = val
            emit({'op': 'set', 'i': i + 1, 'path': path, 'field': field, 'val': val})
        elif kind in ('put', 'drop'):
            ds = [(p, n) for p, n in reach(objs[i]) if n['k'] == 'dict' and 0 not in p]
            # members of dictionaries inside arrays change the array's length unnoticed
            if not ds:
                continue
            path, node = r.choice(ds[:1] * 4 + ds)
            key = r.choice(node['keys'] + ['added', 'late'])
            if kind == 'put':
                t = tree(0)
                if path:
                    pass        # refused
                elif key in node['keys']:
                    node['subs'][node['keys'].index(key)] = t
                else:
                    node['keys'].append(key)
                    node['subs'].append(t)
                emit({'op': 'put', 'i': i + 1, 'path': path, 'key': key, 'p': strip(t)})
            else:
                if not path and key in node['keys']:
                    j = node['keys'].index(key)
                    del node['keys'][j], node['subs'][j]
                emit({'op': 'drop', 'i': i + 1, 'path': path, 'key': key})
    return {'ops': ops, 'opts': opts}


# ---------------------------------------------------------------- the real side
class Program:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='live_')
        self.objs, self.docs, self.trees = [], [], []
        self.bases = {}         # id(array) -> (array, its base)
        self.values = {}

    def close(self):
        shutil.rmtree(self.dir)

    def build(self, t):
        reg = {}
        obj = build(t, reg)
        for path, node in gen.paths(t):
            if node['k'] == 'parr':
                a = reg[tuple(path)]
                self.bases[id(a)] = a, reg[tuple(path) + (0,)]
        return obj

    def at(self, i, path):
        obj, t = self.objs[i], self.trees[i]
        for s in path:
            if s == 0:
                obj, t = self.bases[id(obj)][1], t['base']
            else:
                obj, t = obj[t['keys'][s - 1]], t['subs'][s - 1]
        return obj

    def decode(self, d, how):
        doc = self.docs[d]
        if how == 'class':
            kind = json.loads(doc)['pattern'].rsplit('.', 1)[-1]
            return getattr(paragami, kind, UserArray).from_json(doc)
        if how == 'transport':
            doc = json.dumps(json.loads(doc), indent=1)
        return paragami.get_pattern_from_json(doc)

    def step(self, o, opt, out):
        k = o['op']
        if k == 'make':
            self.objs.append(self.build(o['p']))
        elif k == 'text':
            self.docs.append(call(self.objs[o['i'] - 1].to_json, 'ok', 'to_json'))
        elif k == 'revive':
            self.objs.append(call(lambda: self.decode(o['d'] - 1, opt.get('how')), 'ok', 'decoding'))
        elif k == 'write':
            p = self.objs[o['i'] - 1]
            v = p.empty(valid=True)
            f = os.path.join(self.dir, o['file'])
            call(lambda: paragami.save_folded(f, v, p, n=np.array(o['n'])), 'ok', 'save_folded')
            self.values[o['file']] = copy.deepcopy(v)
        elif k == 'read':
            f = os.path.join(self.dir, o['file'] + '.npz')
            v, p, data = call(lambda: paragami.load_folded(f), 'ok', 'load_folded')
            if int(data['n']) != out['x']:
                raise Mismatch('loaded the data of save %r, expected %r' % (int(data['n']), out['x']))
            if snapshot(v) != snapshot(self.values[o['file']]):
                raise Mismatch('loaded %r, saved %r' % (v, self.values[o['file']]))
            self.objs.append(p)
        elif k == 'set':
            obj = self.at(o['i'] - 1, o['path'])
            if o['field'] == 'fd':
                obj.free_default = FREE[o['val']]
            else:
                obj.default_validate = o['val']
        elif k == 'put':
            d = self.at(o['i'] - 1, o['path'])

            def put():
                d[o['key']] = self.build(o['p'])
            call(put, out['st'], 'assignment of a member')
        elif k == 'drop':
            d = self.at(o['i'] - 1, o['path'])

            def drop():
                del d[o['key']]
            call(drop, out['st'], 'del')
        else:
            raise ValueError(k)
        self.trees = out['objs']
        self.look(out)

    def look(self, out):
        if len(self.objs) != len(out['objs']):
            raise ValueError('objects out of step')
        for i, (obj, t) in enumerate(zip(self.objs, out['objs'])):
            want = build(t)
            if type(obj) is not type(want) or not (obj == want and want == obj) or obj != want:
                raise Mismatch('object %d is now %s, expected %s' % (i + 1, obj.to_json(), want.to_json()))
            if json.loads(obj.to_json()) != json.loads(want.to_json()):
                raise Mismatch('object %d now describes itself as %s, expected %s' % (
                    i + 1, obj.to_json(), want.to_json()))
            settings(obj, t, 'object %d' % (i + 1))
        for i, a in enumerate(self.objs):
            for j, b in enumerate(self.objs):
                if (a == b) != out['eq'][i][j] or (a != b) == out['eq'][i][j]:
                    raise Mismatch('object %d == object %d is %r, expected %s (%s, %s)' % (
                        i + 1, j + 1, a == b, out['eq'][i][j], a.to_json(), b.to_json()))


def settings(obj, t, what):
    if obj.free_default != FREE[t['fd']]:
        raise Mismatch('%s: free_default is %r, expected %r' % (what, obj.free_default, FREE[t['fd']]))
    if 'dv' in t and obj.default_validate != t['dv']:
        raise Mismatch('%s: default_validate is %r' % (what, obj.default_validate))
    if obj.flat_length(free=False) != gen.length(t, False) or \
            obj.flat_length(free=True) != gen.length(t, True):
        raise Mismatch('%s: lengths %r and %r, expected %r and %r' % (
            what, obj.flat_length(free=False), obj.flat_length(free=True),
            gen.length(t, False), gen.length(t, True)))
    if t['k'] == 'dict':
        if list(obj.keys()) != t['keys']:
            raise Mismatch('%s: keys %r, expected %r' % (what, list(obj.keys()), t['keys']))
        for k, s in zip(t['keys'], t['subs']):
            settings(obj[k], s, '%s[%s]' % (what, k))


def snapshot(v):
    if isinstance(v, dict):
        return [(k, snapshot(s)) for k, s in v.items()]
    return v.shape, v.astype(float).tobytes()


def run_live(b, outs):
    w = Program()
    try:
        for i, (o, opt, rec) in enumerate(zip(b['ops'], b['opts'], outs)):
            try:
                w.step(o, opt, rec['out'])
            except Mismatch as e:
                raise Mismatch('step %d %s: %s' % (i, {k: v for k, v in o.items() if k != 'p'}, e))
    finally:
        w.close()
