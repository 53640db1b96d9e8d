"""C22: many iterators of one container advanced in turns, between reads of every kind."""

import copy
import pickle

from .. import ops, work
from ..anyobj import change, contents, identical, make, pick_world

ID = 'C22'
LEVEL = 'exploration'
TECHNIQUE = ('random interleavings of many iterators and read-only operations on one container; every iterator is '
             'compared step by step with the sequence it must yield, the contents with what they were')
QUICK_CASES = 7000
RULE = ('a case makes a container of a random class with some history, opens iterators of random kinds (iter, '
        'reversed, irange, irange_key, islice, view iterators) at random moments and advances them in random order '
        'while read-only operations run in between; each step must yield the object a plain list of the contents '
        'says, an exhausted iterator stays exhausted, the contents stay identical; then the container is dropped '
        'and the iterators still open are finished; distinct by class, domain, size, load and mix of reads')
ASSUMPTIONS = ['no operation of the case changes the container while an iterator is open (documented as unsupported)']
REQUIRED = ['oracle_checks', 'steps', 'iterators', 'interleaved', 'reads', 'exhausted', 'outlived', 'list', 'keylist',
            'set', 'dict', 'it_iter', 'it_reversed', 'it_irange', 'it_irange_key', 'it_islice', 'it_view', 'it_viewrev',
            'read_index_built', 'same_view', 'reused_after_change']

LIST_READS = ('getitem', 'getitem', 'getslice', 'bisect_left', 'bisect_right', 'bisect', 'count', 'index', 'contains',
              'irange', 'islice', 'iter', 'reversed', 'len', 'repr', 'copy', 'concat', 'mul', 'cmp')
SET_READS = ('binop', 'method', 'test', 'getitem', 'getitem', 'getslice', 'bisect_left', 'bisect_right', 'bisect', 'count',
             'index', 'contains', 'irange', 'islice', 'iter', 'reversed', 'len', 'repr', 'copy', 'cmp')
DICT_READS = ('get', 'getkey', 'peekitem', 'peekitem', 'or', 'ror', 'copy', 'contains', 'view', 'viewslice', 'viewread',
              'index', 'bisect_left', 'bisect_right', 'bisect', 'irange', 'islice', 'iter', 'reversed', 'len', 'repr',
              'cmp', 'fromkeys')
READS = {'list': LIST_READS, 'keylist': LIST_READS + ops.KEYED, 'set': SET_READS, 'dict': DICT_READS}


def open_iter(ctx, rng, kind, dom, c, ref, pairs, views):
    """(description, iterator, expected objects; pairs are compared item by item)"""
    n = len(ref)
    names = ['iter', 'iter', 'reversed', 'irange', 'irange', 'islice', 'islice']
    if dom.key is not None:
        names += ['irange_key', 'irange_key']
    if kind == 'dict':
        names += ['view', 'view', 'viewrev', 'viewrev']
    name = rng.choice(names)
    ctx.n('iterators')
    ctx.n('it_' + name)
    if name == 'iter':
        return name, iter(c), ref
    if name == 'reversed':
        return name, reversed(c), ref[::-1]
    if name in ('irange', 'irange_key'):
        if name == 'irange':
            op = work.gen_irange(rng, name, lambda: work.pick_value(rng, dom, ref))
            kf = dom.key_of
        else:
            op = work.gen_irange(rng, name, lambda: work.pick_key(rng, dom, ref))
            kf = None
        _, lo, hi, inc, rev = op
        lo2 = lo if lo is None or kf is None else kf(lo)
        hi2 = hi if hi is None or kf is None else kf(hi)
        want = work.irange_ref(ref, work.keys_of(ref, dom.key), lo2, hi2, inc, rev)
        return op, getattr(c, name)(lo, hi, inc, rev), want
    if name == 'islice':
        s = work.pick_slice(rng, c, n)
        rev = rng.random() < 0.5
        return (name, s.start, s.stop, rev), c.islice(s.start, s.stop, rev), work.islice_ref(ref, s.start, s.stop, rev)
    which = rng.choice(('keys', 'values', 'items'))
    v = views.get(which)
    if v is None or rng.random() < 0.3:
        v = views[which] = getattr(c, which)()
    else:
        ctx.n('same_view')
    want = ref if which == 'keys' else [p[1] for p in pairs] if which == 'values' else pairs
    if name == 'view':
        return (name, which), iter(v), want
    return (name, which), reversed(v), want[::-1]


class Open:
    def __init__(self, what, it, want):
        self.what, self.it, self.want, self.at = what, it, want, 0


def step(ctx, o):
    """Advance one iterator; True when it is exhausted."""
    ctx.n('steps')
    tag, v = work.outcome_of(lambda: next(o.it))
    if o.at >= len(o.want):
        ctx.check(tag == 'exc' and type(v) is StopIteration, f'{o.what}: yields more than it should', v, o.at)
        return True
    ctx.check(tag == 'ok', f'{o.what}: ends after {o.at} of {len(o.want)}', v)
    w = o.want[o.at]
    if type(w) is tuple and type(v) is tuple and len(w) == 2 and len(v) == 2:
        ok = v[0] is w[0] and v[1] is w[1]
    else:
        ok = v is w
    ctx.check(ok, f'{o.what}: value {o.at} is wrong: got / expected', v, w)
    o.at += 1
    return False


def read(ctx, rng, kind, dom, c, ref, pairs, names, w):
    ctx.n('reads')
    name = rng.choices(names, w)[0]
    if name == 'pickle':
        work.outcome_of(lambda: pickle.loads(pickle.dumps(c)))
        ctx.log('pickle')
    elif name == 'copycopy':
        copy.copy(c)
        ctx.log('copy.copy')
    elif name == '_check':
        c._check()
        ctx.log('_check')
    else:
        op = ops.gen(rng, kind, dom, c, ref, name)
        ctx.log(*op)
        after, _ = ops.apply(kind, c, op)
        ctx.check(after is c, f'{name} rebinds its operand')
    inner = getattr(c, '_list', c)
    if getattr(inner, '_index', None):
        ctx.n('read_index_built')


def case(ctx):
    rng = ctx.rng
    prof = work.profile(rng, 1.0)
    kind, cls, dom = pick_world(rng, n=prof.n)
    ctx.n(kind)
    c = make(rng, kind, cls, dom, prof.load, dom.some(rng, prof.n))
    names, w = work.weights(rng, READS[kind] + ('pickle', 'copycopy') + ('_check',) * ('lt' not in dom.name))
    for i, name in enumerate(names):
        if name in ('pickle', 'copycopy', '_check', 'mul', 'repr') and prof.n > 400:
            w[i] = min(w[i], 0.1)
    ctx.log('world', kind, cls.__name__, repr(dom), f'n={len(c)}')
    ctx.shape(kind, cls.__name__, dom.name, prof.n, prof.load, tuple(names))
    for round_ in range(rng.choice((1, 1, 2, 3))):
        pairs = contents(kind, c)
        ref = [p[0] for p in pairs] if kind == 'dict' else pairs
        opened, views = [], {}
        style = rng.random()
        last = None
        for _ in range(prof.ops):
            r = rng.random()
            if r < 0.15 and len(opened) < 12 or not opened:
                o = Open(*open_iter(ctx, rng, kind, dom, c, ref, pairs, views))
                ctx.log('open', o.what)
                if rng.random() < 0.5:
                    ctx.check(iter(o.it) is o.it, f'{o.what}: iter() of the iterator is another object')
                opened.append(o)
            elif r < 0.6 or style < 0.15:
                o = rng.choice(opened)
                k = rng.choice((1, 1, 2, 3, 20))
                ctx.log('advance', o.what, k)
                if last is not None and last is not o:
                    ctx.n('interleaved')
                last = o
                done = False
                for _ in range(k):
                    done = step(ctx, o)
                    if done:
                        break
                if done:
                    ctx.n('exhausted')
                    if rng.random() < 0.7:
                        step(ctx, o)
                        opened.remove(o)
            else:
                read(ctx, rng, kind, dom, c, ref, pairs, names, w)
        now = contents(kind, c)
        ctx.check(identical(kind, pairs, now), 'reading changed the contents', pairs, now)
        ctx.check(len(c) == len(pairs), 'reading changed the length')
        if round_ == 0 and rng.random() < 0.3:
            # changed in between: new iterators must see the new contents
            for o in opened:
                while not step(ctx, o):
                    pass
            for _ in range(rng.randrange(1, 4)):
                change(rng, kind, c, dom)
            ctx.n('reused_after_change')
            opened = []
        elif rng.random() < 0.4:
            ctx.log('drop the container')
            c = views = None
            for o in opened:
                ctx.n('outlived')
                while not step(ctx, o):
                    pass
                step(ctx, o)
            return
        else:
            rng.shuffle(opened)
            for o in opened:
                while not step(ctx, o):
                    pass
