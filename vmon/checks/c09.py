"""C09: set algebra of sorted sets against built-in sets."""

from .. import work
from ..setwork import CLASSES, build, operand
from ..target import SortedSet
from ..values import OldSequence, any_dom, roomy

ID = 'C09'
LEVEL = 'exploration'
TECHNIQUE = 'random histories mirrored on a built-in set'
QUICK_CASES = 12000
RULE = ('a case is one random history of set operations applied to a sorted set and to a built-in set: methods '
        'with 0-4 iterables of any kind, operators and reflected operators with any iterable, in-place forms, '
        'membership and single-member operations; results, the receiver and re-readable operands are compared '
        'after every operation; distinct by class, domain, profile and operation sequence')
ASSUMPTIONS = ['members are hashable and totally ordered (or their keys are)']
REQUIRED = ['oracle_checks', 'method', 'operator', 'reflected', 'inplace', 'query', 'add', 'discard', 'remove',
            'variadic', 'rebuild_path', 'small_path', 'remove_error', 'results_driven']

METHODS = {
    'union': set.union, 'intersection': set.intersection, 'difference': set.difference,
    'symmetric_difference': set.symmetric_difference,
    'update': set.update, 'intersection_update': set.intersection_update,
    'difference_update': set.difference_update, 'symmetric_difference_update': set.symmetric_difference_update,
}
BINARY = {
    '|': (lambda a, b: a | b, set.union), '&': (lambda a, b: a & b, set.intersection),
    '-': (lambda a, b: a - b, set.difference), '^': (lambda a, b: a ^ b, set.symmetric_difference),
}


def _ior(a, b):
    a |= b
    return a


def _iand(a, b):
    a &= b
    return a


def _isub(a, b):
    a -= b
    return a


def _ixor(a, b):
    a ^= b
    return a


INPLACE = {'|=': (_ior, set.update), '&=': (_iand, set.intersection_update), '-=': (_isub, set.difference_update),
           '^=': (_ixor, set.symmetric_difference_update)}
OPS = ('add', 'add', 'discard', 'remove', 'clear', 'reset', 'query', 'method', 'method', 'imethod', 'imethod',
       'operator', 'operator', 'reflected', 'inplace', 'inplace', 'pop')


def members(ctx, ss, want, what):
    got = list(ss)
    ctx.check(len(got) == len(want) and set(got) == want, f'{what}: members / expected', got, want)
    ctx.check(len(ss) == len(want), f'{what}: len / expected', len(ss), len(want))


def kept(ctx, before, got, what):
    """No member that stays is exchanged for an equal value, as in a built-in set."""
    ctx.n('identity_kept')
    held = {v: v for v in before}
    bad = [(held[x], x) for x in got if x in held and held[x] is not x]
    ctx.check(not bad, f'{what}: members exchanged for equal values', bad)


def drive(ctx, rng, dom, got, model, ref):
    """Change the result: the receiver must not move with it (checked by the caller)."""
    ctx.n('results_driven')
    want = set(got)
    for _ in range(3):
        v = work.pick_value(rng, dom, ref)
        if rng.random() < 0.5:
            got.add(v)
            want.add(v)
        else:
            got.discard(v)
            want.discard(v)
    if rng.random() < 0.2:
        got.clear()
        want.clear()
    members(ctx, got, want, 'result after more changes')


def case(ctx):
    rng = ctx.rng
    cls = rng.choice(CLASSES)
    prof = work.profile(rng)
    if prof.name in ('default', 'large') and rng.random() < 0.7:
        prof.n //= 2
    dom = roomy(rng, prof.n, lambda: any_dom(rng, hashable=True))
    vals = dom.some(rng, prof.n)
    ss = build(rng, cls, dom, prof.load, vals)
    model = set(vals)
    ctx.log('build', cls.__name__, str(prof), repr(dom), vals)
    ctx.shape(cls.__name__, dom.name, repr(prof))
    members(ctx, ss, model, 'construction')
    names, wts = work.weights(rng, OPS, boost=('add', 'method', 'imethod', 'operator'))
    ref = list(ss)
    for _ in range(prof.ops):
        name = rng.choices(names, wts)[0]
        v = work.pick_value(rng, dom, ref)
        what = f'{name} {v!r}'
        sub = ''
        if name == 'add':
            ctx.n('add')
            ctx.check(ss.add(v) is None, 'add returns None')
            model.add(v)
        elif name == 'discard':
            ctx.n('discard')
            ss.discard(v)
            model.discard(v)
        elif name == 'remove':
            ctx.n('remove')
            st, val = work.outcome_of(lambda: ss.remove(v))
            if v in model:
                ctx.check(st == 'ok', what + ' raised', val)
                model.remove(v)
            else:
                ctx.n('remove_error')
                ctx.check(st == 'exc' and type(val) is KeyError, what + ' of an absent member', st, val)
        elif name == 'pop':
            if ref:
                x = ss.pop()
                ctx.check(x in model, 'pop returned a non-member', x)
                model.remove(x)
        elif name == 'clear':
            ss.clear()
            model.clear()
        elif name == 'reset':
            ss._reset(rng.choice((4, 5, 7, 50)))
        elif name == 'query':
            ctx.n('query')
            o, ovals = operand(rng, dom, ref)
            sub = rng.choice(('isdisjoint', 'issubset', 'issuperset', 'in', 'count'))
            if rng.random() < 0.3:
                ovals = ref + ovals if rng.random() < 0.5 else ref[: len(ref) // 2]
                o = rng.choice((list, tuple, set, iter))(ovals)
            what = f'{sub} {ovals!r}'
            if sub == 'in':
                ctx.eq(v in ss, v in model, f'{v!r} in set')
            elif sub == 'count':
                ctx.eq(ss.count(v), int(v in model), f'count({v!r})')
            else:
                ctx.eq(getattr(ss, sub)(o), getattr(model, sub)(ovals), what)
        elif name in ('method', 'imethod'):
            sub = rng.choice([m for m in METHODS if m.endswith('update') == (name == 'imethod')])
            k = 1 if sub.startswith('symmetric') else rng.choice((0, 1, 1, 1, 2, 3, 4))
            pairs = [operand(rng, dom, ref) for _ in range(k)]
            what = f'{sub} {[p[1] for p in pairs]!r}'
            ctx.n('variadic', k != 1)
            keep = [(o, list(o)) for o, _ in pairs if hasattr(o, '__len__')]
            alias = rng.random() < 0.06 and k
            args = [p[0] for p in pairs]
            margs = [p[1] for p in pairs]
            if alias:
                args[0] = ss
                margs[0] = set(model)
                what = f'{sub} with itself'
            got = getattr(ss, sub)(*args)
            if name == 'imethod':
                ctx.n('inplace')
                big = 4 * len(set().union(*margs)) > len(model)
                ctx.n('rebuild_path' if big else 'small_path')
                METHODS[sub](model, *margs)
                ctx.check(got is ss, f'{sub} returned another object')
            else:
                ctx.n('method')
                ctx.check(got is not ss, f'{sub} returned the receiver')
                members(ctx, got, METHODS[sub](model, *margs), what)
                if sub in ('union', 'difference'):
                    kept(ctx, ref, got, what)
                if rng.random() < 0.4:
                    drive(ctx, rng, dom, got, model, ref)
            for o, before in keep:
                ctx.check(list(o) == before, f'{what} changed an operand', o, before)
        elif name in ('operator', 'reflected'):
            sub = rng.choice(list(BINARY))
            f, mf = BINARY[sub]
            o, ovals = operand(rng, dom, ref)
            keep = list(o) if hasattr(o, '__len__') else None
            if rng.random() < 0.06:
                o, ovals = ss, set(model)
                keep = None
            if name == 'operator':
                what = f'{sub} {ovals!r}'
                ctx.n('operator')
                got = f(ss, o)
                want = mf(model, ovals)
            else:
                what = f'{ovals!r} {sub} set'
                if isinstance(o, OldSequence):
                    o = list(ovals)  # not an Iterable by collections.abc
                ctx.n('reflected')
                got = f(o, ss)
                want = mf(set(ovals), model)
            ctx.check(got is not ss, f'{what} returned the receiver')
            members(ctx, got, set(want), what)
            if name == 'operator' and sub in '|-':
                kept(ctx, ref, got, what)
            if rng.random() < 0.4 and not isinstance(o, SortedSet):
                drive(ctx, rng, dom, got, model, ref)
            if keep is not None:
                ctx.check(list(o) == keep, f'{what} changed an operand', o, keep)
        elif name == 'inplace':
            sub = rng.choice(list(INPLACE))
            f, mf = INPLACE[sub]
            o, ovals = operand(rng, dom, ref)
            if rng.random() < 0.06:
                ctx.n('alias')
                o, ovals = ss, set(model)
            what = f'{sub} {ovals!r}'
            ctx.n('inplace')
            got = f(ss, o)
            ctx.check(got is ss, f'{sub} made another object')
            mf(model, ovals)
        ctx.log(what)
        ctx.shape(name, sub)
        members(ctx, ss, model, what)
        if '&' not in sub and 'intersection' not in sub:
            kept(ctx, ref, ss, what)
        ref = list(ss)
    for v in ref[:50] + dom.some(rng, 10):
        ctx.eq(v in ss, v in model, f'{v!r} in set')
