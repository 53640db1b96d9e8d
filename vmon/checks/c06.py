"""C06: ties keep insertion order."""

import copy
import pickle

from .. import work
from ..target import SortedDict, SortedKeyList, SortedList
from ..values import Arg, Dom, LtOnly, Obj, Rec, k_half, k_identity, k_lower, k_mod7, k_neg, k_negrec, k_rec
from ..work import sort_stable

ID = 'C06'
LEVEL = 'exploration'
TECHNIQUE = 'random histories with ties, stable-order shadow model'
QUICK_CASES = 3000
RULE = ('a case is one random history on a sorted list or key-ordered dict whose values mostly tie; the monitor '
        'keeps the insertion order of every object in a stable reference and compares the whole order by object '
        'identity (by object id number across copies and pickles) after every operation; distinct by container, '
        'domain, profile and operation sequence')
ASSUMPTIONS = ['which of several equal values remove() takes out is not part of this property',
               'the order of ties in results of + and * is not part of this property']
REQUIRED = ['oracle_checks', 'ties', 'big_update', 'small_update', 'on_list', 'on_dict', 'reset', 'copied', 'pickled']


def tie_dom(rng):
    s = rng.choice((1, 2, 3, 8, 8, 40, 40, 150))
    c = rng.randrange(7)
    if c == 0:
        return Dom(f'obj/{s}', lambda r: Obj(r.randrange(s)))
    if c == 1:
        return Dom(f'ltonly/{s}', lambda r: LtOnly(r.randrange(s)))
    if c == 2:
        return Dom(f'rec/{s}', lambda r: Rec(r.randrange(s), r.randrange(100)), key=k_rec)
    if c == 3:
        return Dom(f'negrec/{s}', lambda r: Rec(r.randrange(s), r.randrange(3)), key=k_negrec)
    if c == 4:
        return Dom(f'objkey/{s}', lambda r: Obj(r.randrange(s)), key=k_identity)
    if c == 5:
        # equal numbers of different types
        return Dom(f'num/{s}', lambda r: (float if r.random() < 0.5 else int)(r.randrange(300, 300 + s)))
    return Dom(f'negnum/{s}', lambda r: (float if r.random() < 0.5 else int)(r.randrange(300, 300 + s)), key=k_neg)


class Stable:
    """Values in the order the property gives them."""

    def __init__(self, key):
        self.key = key
        self.vals = []

    def add(self, v):
        k = v if self.key is None else self.key(v)
        lo = work.bisect_ref(work.keys_of(self.vals, self.key), k, True)
        self.vals.insert(lo, v)

    def update(self, vs):
        # sequence of single insertions, in the order given
        self.vals = sort_stable(self.vals + list(vs), self.key)


def uids(vals):
    return [(type(v), getattr(v, 'uid', v)) for v in vals]


def same(ctx, sl, model, what):
    ctx.same_seq(list(sl), model.vals, what)


def resync_removed(ctx, sl, model, target, what):
    """One value equal to target is gone; nothing else moved."""
    cur = list(sl)
    old = model.vals
    ctx.check(len(cur) == len(old) - 1, f'{what}: removed {len(old) - len(cur)} values')
    i = 0
    while i < len(cur) and cur[i] is old[i]:
        i += 1
    ctx.check(old[i] == target, f'{what}: another value went or moved', old[i], target)
    # the gone one may be any of its tied neighbours only if objects repeat
    ctx.same_seq(cur[i:], old[i + 1:], f'{what}: order of the others')
    model.vals = cur


def on_list(ctx, rng):
    dom = tie_dom(rng)
    prof = work.profile(rng)
    ctx.log('list', str(prof), repr(dom))
    ctx.shape('list', dom.name, repr(prof))
    model = Stable(dom.key)
    values = dom.some(rng, prof.n)
    cls = SortedList if dom.key is None or rng.random() < 0.5 else SortedKeyList
    if rng.random() < 0.5:
        src = Arg(rng.choice(Arg.KINDS), values).make()
        sl = cls(src) if dom.key is None else cls(src, key=dom.key)
        model.update(values)
        if prof.load:
            sl._reset(prof.load)
    else:
        sl = cls() if dom.key is None else cls(key=dom.key)
        if prof.load:
            sl._reset(prof.load)
        if prof.n > 800 or rng.random() < 0.4:
            sl.update(values)
            model.update(values)
        else:
            for v in values:
                sl.add(v)
            model.update(values)
    same(ctx, sl, model, 'construction')
    names, wts = work.weights(rng, ('add', 'add', 'update', 'iadd', 'remove', 'discard', 'pop', 'delitem', 'delslice',
                                    'reset', 'copy', 'pickle', 'deepcopy'), boost=('add', 'update'))
    for _ in range(prof.ops):
        name = rng.choices(names, wts)[0]
        n = len(model.vals)
        if n > 4000 and name in ('update', 'iadd'):
            name = 'pop'
        ctx.shape(name)
        if name == 'copy':
            ctx.n('copied')
            ctx.log('copy')
            same(ctx, rng.choice((copy.copy, lambda x: x.copy(), lambda x: sl.__class__(x) if dom.key is None
                                  else sl.__class__(x, key=dom.key)))(sl), model, 'copy')
            continue
        if name in ('pickle', 'deepcopy'):
            ctx.n('pickled')
            ctx.log(name)
            other = (pickle.loads(pickle.dumps(sl, rng.randrange(pickle.HIGHEST_PROTOCOL + 1)))
                     if name == 'pickle' else copy.deepcopy(sl))
            ctx.eq(uids(other), uids(model.vals), f'order after {name}')
            continue
        op = work.gen_list_op(rng, dom, sl, model.vals, name, oob=0)
        if name in ('update', 'iadd') and rng.random() < 0.008:
            ctx.n('huge_update')
            op[1].items[:] = dom.some(rng, rng.choice((600, 1500, 3000)))
        if name in ('pop', 'delitem') and not n:
            continue
        ctx.log(*op)
        sl, (st, val) = work.apply(sl, op)
        if name == 'add':
            model.add(op[1])
        elif name in ('update', 'iadd'):
            ctx.n('big_update' if 4 * len(op[1].items) >= n else 'small_update')
            model.update(op[1].items)
        elif name in ('remove', 'discard'):
            if any(x == op[1] for x in model.vals):
                resync_removed(ctx, sl, model, op[1], repr(op))
            else:
                same(ctx, sl, model, 'no removal')
            continue
        elif name in ('pop', 'delitem', 'delslice'):
            del model.vals[op[1]]
        elif name == 'reset':
            ctx.n('reset')
        ctx.check(st == 'ok', f'{op!r} raised', val)
        same(ctx, sl, model, repr(op))
    if len(model.vals) > len(set(work.keys_of(model.vals, dom.key))):
        ctx.n('ties')
    ctx.n('on_list')


def on_dict(ctx, rng):
    s = rng.choice((2, 8, 40, 300))
    key, gen = rng.choice((
        (k_rec, lambda r: Rec(r.randrange(s), r.randrange(1000))),
        (k_negrec, lambda r: Rec(r.randrange(s), r.randrange(1000))),
        (k_mod7, lambda r: r.randrange(20 * s)),
        (k_half, lambda r: r.randrange(s)),
        (k_lower, lambda r: ''.join(r.choice('aAbB') for _ in range(1 + s % 9))),
    ))
    prof = work.profile(rng)
    if prof.name in ('default', 'large'):
        prof.n //= 3
    ctx.log('dict', str(prof), key.__name__)
    ctx.shape('dict', key.__name__, repr(prof))
    model = {}
    sd = SortedDict(key)
    if prof.load:
        sd._reset(prof.load)

    def check(what, d=None):
        got = list(sd if d is None else d)
        want = sorted(model, key=key)
        if d is None:
            ctx.same_seq(got, want, what)
        else:
            ctx.eq(uids(got), uids(want), what)

    def pairs(k):
        return [(gen(rng), rng.choice((None, 0, rng.randrange(100)))) for _ in range(k)]

    first = pairs(prof.n)
    if rng.random() < 0.5:
        sd.update(first)
    else:
        for k, v in first:
            sd[k] = v
    model.update(first)
    check('filled')
    for _ in range(prof.ops):
        c = rng.randrange(14)
        ctx.shape(c)
        if c < 4:
            k = gen(rng) if rng.random() < 0.6 or not model else rng.choice(list(model))
            c = rng.choice((c, None, False, ''))
            ctx.log('set', k)
            if rng.random() < 0.3:
                sd.setdefault(k, c)
                model.setdefault(k, c)
            else:
                sd[k] = c
                model[k] = c
        elif c < 6:
            ps = pairs(rng.choice((1, 3, max(1, len(model) // 10), len(model) // 4)))
            ctx.log('update', ps)
            ctx.n('big_update' if 10 * len(ps) > len(model) else 'small_update')
            if rng.random() < 0.5:
                sd.update(ps)
            else:
                sd.update(dict(ps))
            model.update(ps)
        elif c < 8 and model:
            k = rng.choice(list(model))
            ctx.log('del', k)
            if rng.random() < 0.5:
                del sd[k]
            else:
                sd.pop(k)
            del model[k]
        elif c == 8 and model:
            i = rng.randrange(len(model))
            ctx.log('popitem', i)
            k = sd.popitem(i)[0]
            # any key may be the wrong one only if order was wrong already
            model.pop(k)
        elif c == 9:
            ctx.log('reset')
            ctx.n('reset')
            sd._reset(rng.choice((4, 7, 30)))
        elif c == 10:
            ctx.log('copy')
            ctx.n('copied')
            check('copy', sd.copy() if rng.random() < 0.5 else copy.copy(sd))
        elif c > 11:
            ps = dict(pairs(rng.choice((1, 3, max(1, len(model) // 10), len(model) // 4))))
            way = rng.randrange(3)
            ctx.log('operator', way, ps)
            ctx.n('operators')
            if way == 0:
                sd |= ps
                model.update(ps)
            else:
                # the left operand's keys come first, stored keys keep their place
                kept = dict(model)
                model = {**model, **ps} if way == 1 else {**ps, **model}
                check('|', sd | ps if way == 1 else ps | sd)
                model = kept
        else:
            ctx.log('pickle')
            ctx.n('pickled')
            check('pickle', pickle.loads(pickle.dumps(sd)) if rng.random() < 0.7 else copy.deepcopy(sd))
        check('after operation')
    ctx.n('on_dict')
    if len(model) > len({key(k) for k in model}):
        ctx.n('ties')


def case(ctx):
    if ctx.rng.random() < 0.7:
        on_list(ctx, ctx.rng)
    else:
        on_dict(ctx, ctx.rng)
