"""C01: order and conservation of sorted lists over random histories."""

from collections import Counter

from .. import work
from ..values import any_dom

ID = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'random histories, object-identity conservation and order oracle'
QUICK_CASES = 3000
RULE = ('a case is one random history on a sorted list (value domain, key function, load factor, way of '
        'building, operation mix and sizes drawn per case); after every operation an oracle compares the '
        'multiset of stored object identities with the one before, plus and minus what the operation added '
        'and removed, and checks ascending order, reversed() and len(); non-trivial when it made at least one '
        'such check; distinct by domain, profile and operation sequence')
ASSUMPTIONS = ['stored values are totally ordered (or their keys are) and do not change while stored']
REQUIRED = ['oracle_checks', 'op_add', 'op_update', 'op_remove', 'op_pop', 'op_delitem', 'op_imul', 'split_or_merge']


def ids(values):
    return Counter(map(id, values))


def observe(ctx, sl, dom):
    cur = list(sl)
    keys = work.keys_of(cur, dom.key)
    ctx.check(work.is_ascending(keys), 'iteration is not in ascending order', keys)
    back = list(reversed(sl))
    ctx.same_seq(back, cur[::-1], 'reversed() against forward iteration')
    ctx.eq(len(sl), len(cur), 'len() against iteration')
    return cur


def case(ctx):
    rng = ctx.rng
    dom = any_dom(rng)
    prof = work.profile(rng)
    values = dom.some(rng, prof.n)
    sl = work.build_list(rng, dom, prof, values)
    ctx.log('build', str(prof), repr(dom), values)
    ctx.shape(dom.name, repr(prof))
    cur = observe(ctx, sl, dom)
    ctx.check(ids(cur) == ids(values), 'construction lost or invented values', values, cur)
    names, wts = work.weights(rng, work.LIST_MUTATORS, boost=('add',))
    poke = rng.choice((0, 0.3, 0.7))
    for _ in range(prof.ops):
        name = rng.choices(names, wts)[0]
        op = work.gen_list_op(rng, dom, sl, cur, name)
        if cur and rng.random() < poke:
            sl[len(cur) // 2]
            sl.bisect_left(cur[len(cur) // 3])
        ctx.log(*op)
        nseg = len(getattr(sl, '_lists', ()))
        after, (st, val) = work.apply(sl, op)
        ctx.check(after is sl, f'{op[0]} is not in place')
        ctx.n('op_' + op[0])
        ctx.shape(name)
        prev = cur
        cur = observe(ctx, sl, dom)
        if len(getattr(sl, '_lists', ())) != nseg:
            ctx.n('split_or_merge')
        judge(ctx, op, st, val, prev, cur)
    ctx.n('values_seen', len(cur))


def judge(ctx, op, st, val, prev, cur):
    name = op[0]
    want = ids(prev)
    if name == 'add':
        want[id(op[1])] += 1
    elif name in ('update', 'iadd'):
        want.update(map(id, op[1].items))
    elif name in ('remove', 'discard'):
        target = op[1]
        if any(x == target for x in prev):
            ctx.check(st == 'ok', f'{name} of a stored value raised', target, val)
            gone = want - ids(cur)
            ctx.check(len(cur) == len(prev) - 1 and sum(gone.values()) == 1,
                      f'{name} did not remove exactly one value', target, prev, cur)
            (g,) = gone
            obj = next(x for x in prev if id(x) == g)
            ctx.check(obj == target, f'{name} removed another value', target, obj)
            return
        ctx.check(ids(cur) == want, f'{name} of an absent value changed the list', target, prev, cur)
        return
    elif name == 'pop' or (name == 'delitem' and not isinstance(op[1], slice)):
        i = op[1] if len(op) > 1 else -1
        if not -len(prev) <= i < len(prev):
            ctx.check(st == 'exc' and ids(cur) == want, 'removal at a bad index', op, prev, cur)
            return
        ctx.check(st == 'ok', f'{name} at a good index raised', op, val)
        if name == 'pop':
            ctx.check(val is prev[i], 'pop returned another object', op, val, prev[i])
        want[id(prev[i])] -= 1
    elif name == 'delitem':
        want.subtract(map(id, prev[op[1]]))
    elif name == 'imul':
        for k in want:
            want[k] *= max(0, op[1])
    elif name == 'clear':
        want = Counter()
    ctx.check(st == 'ok', f'{name} raised', op, val)
    ctx.check(ids(cur) == +want, f'values lost, duplicated or replaced by {name}', op, prev, cur)
