"""C08: views and positions of sorted dicts mirror the current items."""

import warnings
from collections import namedtuple

from .. import work
from ..dictwork import CLASSES, Val, build, dict_dom, update_size
from ..values import keyed_dom, roomy

ID = 'C08'
LEVEL = 'exploration'
TECHNIQUE = 'random histories, held views compared with plain lists and sets of mirrored items'
QUICK_CASES = 4000
RULE = ('a case is one random history of changes to a sorted dict (mapping operations, popitem at positions, '
        'deletion of positions and slices through keys, items and values views) with views taken at the start '
        'and at random moments; after every change sampled view and position queries are compared with plain '
        'lists and sets of the mirrored items; distinct by class, domain, profile and operation sequence')
ASSUMPTIONS = ['set operations of views are asked only where the members are orderable (they build a SortedSet)',
               'key order is C07']
REQUIRED = ['oracle_checks', 'view_int', 'view_slice', 'view_del_int', 'view_del_slice', 'popitem', 'peekitem',
            'position_error', 'view_setop', 'view_cmp', 'view_count', 'view_index', 'key_rank', 'old_views', 'never_equal']


class Pair(namedtuple('Pair', 'key value')):
    __slots__ = ()


class Never(Val):
    """Equal to nothing, itself included, as NaN is: found by identity only, as in every container of Python."""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    def __hash__(self):
        return id(self) >> 4


class Mirror:
    def __init__(self, sd, model, keys):
        self.sd = sd
        self.m = model
        self.K = keys
        self.V = [model[k] for k in keys]
        self.I = list(zip(keys, self.V))


def same(ctx, got, want, what):
    """Items are tuples made anew: compare their halves by identity."""
    ctx.counts['oracle_checks'] += 1
    if len(got) == len(want) and all(a is b or (
            type(a) is tuple and type(b) is tuple and len(a) == 2 and a[0] is b[0] and a[1] is b[1])
            for a, b in zip(got, want)):
        return
    ctx.fail(f'{what}: got / expected', got, want)


def raises(ctx, f, exc, what):
    st, val = work.outcome_of(f)
    ctx.check(st == 'exc' and type(val) is exc, f'{what} should raise {exc.__name__}', st, val)


def query(ctx, rng, mir, views, dom):
    K, V, I, sd = mir.K, mir.V, mir.I, mir.sd
    n = len(K)
    which = rng.randrange(3)
    view = rng.choice(views[which])
    want = (K, I, V)[which]
    what = ('keys', 'items', 'values')[which]
    c = rng.randrange(15)
    if c == 0:
        ctx.eq(len(view), n, f'len of {what}')
        same(ctx, list(view), want, f'list of {what}')
        same(ctx, list(reversed(view)), want[::-1], f'reversed {what}')
    elif c in (1, 2):
        i = work.pick_index(rng, sd, n)
        if -n <= i < n:
            ctx.n('view_int')
            same(ctx, [view[i]], [want[i]], f'{what}[{i}] of {n}')
        else:
            ctx.n('position_error')
            raises(ctx, lambda: view[i], IndexError, f'{what}[{i}] of {n}')
    elif c in (3, 4):
        s = work.pick_slice(rng, sd, n)
        ctx.n('view_slice')
        got = view[s]
        ctx.check(type(got) is list, f'{what}[{s}] is a list', type(got))
        same(ctx, got, want[s], f'{what}[{s}] of {n}')
    elif c == 5:
        x = pick_probe(rng, dom, mir, which)
        ctx.eq(x in view, x in want, f'{x!r} in {what}')
    elif c == 6:
        x = pick_probe(rng, dom, mir, which)
        ctx.n('view_count')
        ctx.eq(view.count(x), want.count(x), f'{what}.count({x!r})')
    elif c == 7:
        x = pick_probe(rng, dom, mir, which)
        args = () if rng.random() < 0.4 else (work.pick_bound(rng, n),) if rng.random() < 0.5 else (
            work.pick_bound(rng, n), work.pick_bound(rng, n))
        ctx.n('view_index')
        try:
            w = want.index(x, *args)
        except ValueError:
            raises(ctx, lambda: view.index(x, *args), ValueError, f'{what}.index({x!r}, {args})')
        else:
            ctx.eq(view.index(x, *args), w, f'{what}.index({x!r}, {args})')
    elif c in (8, 9) and which != 2:
        setops(ctx, rng, mir, view, which, want, what, dom)
    elif c == 10:
        i = work.pick_index(rng, sd, n)
        args = () if rng.random() < 0.3 else (i,)
        i = args[0] if args else -1
        ctx.n('peekitem')
        if -n <= i < n:
            same(ctx, [sd.peekitem(*args)], [I[i]], f'peekitem{args} of {n}')
        else:
            ctx.n('position_error')
            raises(ctx, lambda: sd.peekitem(*args), IndexError, f'peekitem{args} of {n}')
    elif c in (11, 12):
        k = work.pick_value(rng, dom, K)
        ks = work.keys_of(K, dom.key)
        ctx.n('key_rank')
        ctx.eq(sd.bisect_left(k), work.bisect_ref(ks, dom.key_of(k), False), f'bisect_left({k!r})')
        ctx.eq(sd.bisect_right(k), work.bisect_ref(ks, dom.key_of(k), True), f'bisect_right({k!r})')
        ctx.eq(sd.bisect(k), work.bisect_ref(ks, dom.key_of(k), True), f'bisect({k!r})')
        if dom.key is not None:
            q = work.pick_key(rng, dom, K)
            ctx.eq(sd.bisect_key_left(q), work.bisect_ref(ks, q, False), f'bisect_key_left({q!r})')
            ctx.eq(sd.bisect_key_right(q), work.bisect_ref(ks, q, True), f'bisect_key_right({q!r})')
            ctx.eq(sd.bisect_key(q), work.bisect_ref(ks, q, True), f'bisect_key({q!r})')
    elif c == 13:
        k = work.pick_value(rng, dom, K, 0.8)
        args = () if rng.random() < 0.5 else (work.pick_bound(rng, n), work.pick_bound(rng, n))
        try:
            w = K.index(k, *args)
        except ValueError:
            raises(ctx, lambda: sd.index(k, *args), ValueError, f'index({k!r}, {args})')
        else:
            ctx.eq(sd.index(k, *args), w, f'index({k!r}, {args})')
    elif c == 14:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            same(ctx, list(sd.iloc), K, 'iloc')
            if n:
                i = rng.randrange(-n, n)
                same(ctx, [sd.iloc[i]], [K[i]], f'iloc[{i}]')


def pick_member(rng, dom, mir, which):
    n = len(mir.K)
    k = work.pick_value(rng, dom, mir.K)
    if which == 0:
        return k
    v = mir.V[rng.randrange(n)] if n and rng.random() < 0.7 else Val(-1)
    if which == 2:
        return Val(v.n) if rng.random() < 0.5 else v
    if n and rng.random() < 0.5:
        k, v = mir.I[rng.randrange(n)]
        return (dom.twin(rng, k), Val(v.n))
    return (k, v)


def pick_probe(rng, dom, mir, which):
    """Something to look for: a possible member, or of another shape altogether."""
    x = pick_member(rng, dom, mir, which)
    if which == 1 and rng.random() < 0.3:
        k, v = x
        x = rng.choice((k, None, 'ab', (), (k,), (k, v, v), [k, v], {k: v}, (k, ('missing', k)), (k, ('stored', k)),
                        Pair(k, v)))
    elif which == 2 and rng.random() < 0.1:
        x = rng.choice((None, (), [x]))
    elif which == 0 and rng.random() < 0.1:
        x = rng.choice((None, object()))
    return x


def setops(ctx, rng, mir, view, which, want, what, dom):
    others = [pick_member(rng, dom, mir, which) for _ in range(rng.randrange(6))]
    if rng.random() < 0.3:
        others += want if rng.random() < 0.5 else want[: len(want) // 2]
    members = set(want)
    oset = set(others)
    ctx.n('view_cmp')
    ctx.eq(view.isdisjoint(rng.choice((oset, others))), members.isdisjoint(oset), f'{what}.isdisjoint')
    ctx.eq(view == oset, members == oset, f'{what} ==')
    ctx.eq(view != oset, members != oset, f'{what} !=')
    ctx.eq(view <= oset, members <= oset, f'{what} <=')
    ctx.eq(view < oset, members < oset, f'{what} <')
    ctx.eq(view >= oset, members >= oset, f'{what} >=')
    ctx.eq(view > oset, members > oset, f'{what} >')
    ctx.eq(oset <= view, oset <= members, f'reflected {what} >=')
    if not dom.orderable:
        return
    ctx.n('view_setop')
    o = rng.choice((oset, frozenset(oset), dict.fromkeys(oset).keys()))
    for sym, f in (('&', lambda a, b: a & b), ('|', lambda a, b: a | b),
                   ('-', lambda a, b: a - b), ('^', lambda a, b: a ^ b)):
        got = f(view, o)
        ctx.check(set(got) == f(members, oset) and len(got) == len(f(members, oset)),
                  f'{what} {sym} other: got / expected', got, f(members, oset))
        if isinstance(o, (set, frozenset)):
            got = f(o, view)
            ctx.check(set(got) == f(oset, members) and len(got) == len(f(oset, members)),
                      f'other {sym} {what}: got / expected', got, f(oset, members))


OPS = ('set', 'set', 'del', 'update', 'pop', 'popitem', 'popitem', 'popitem_last', 'clear', 'setdefault',
       'del_view_int', 'del_view_int', 'del_view_slice', 'del_view_slice', 'reset', 'take_views', 'ior')


def case(ctx):
    rng = ctx.rng
    cls, plain = rng.choice(CLASSES)
    prof = work.profile(rng)
    if prof.name in ('wide', 'default', 'large') and rng.random() < 0.7:
        prof.n //= 2
    dom = roomy(rng, prof.n, lambda: dict_dom(rng) if rng.random() < 0.6 else keyed_dom(rng, hashable=True))
    if dom.key is None and dom.name.startswith('ltonly'):
        dom.orderable = False  # view set operations may compare tuples with <= and >
    counter = iter(range(10**9))
    mod = rng.choice((3, 10**9))

    odd = 0.3 if rng.random() < 0.3 else 0

    def val():
        if rng.random() < odd:
            ctx.n('never_equal')
            return Never(next(counter) % mod)
        return Val(next(counter) % mod)

    first = [(dom.gen(rng), val()) for _ in range(prof.n)]
    sd, model = build(rng, cls, plain, dom, prof.load, first)
    views = [[sd.keys()], [sd.items()], [sd.values()]]
    ctx.log('build', cls.__name__, str(prof), repr(dom), first)
    ctx.shape(cls.__name__, dom.name, repr(prof))
    names, wts = work.weights(rng, OPS, boost=('set', 'popitem', 'del_view_int', 'del_view_slice'))
    K = list(sd)
    for _ in range(prof.ops):
        name = rng.choices(names, wts)[0]
        ctx.shape(name)
        n = len(K)
        what = name
        k = work.pick_value(rng, dom, K, 0.5)
        if name == 'set':
            v = val()
            sd[k] = model[k] = v
        elif name == 'setdefault':
            v = val()
            sd.setdefault(k, v)
            model.setdefault(k, v)
        elif name in ('del', 'pop'):
            if k in model:
                sd.pop(k) if name == 'pop' else sd.__delitem__(k)
                del model[k]
        elif name in ('update', 'ior'):
            ps = [(work.pick_value(rng, dom, K, 0.4), val()) for _ in range(update_size(rng, n))]
            if name == 'update':
                sd.update(ps)
            else:
                sd |= dict(ps)
            model.update(ps)
        elif name in ('popitem', 'popitem_last'):
            i = work.pick_index(rng, sd, n)
            args = (i,) if name == 'popitem' else ()
            i = args[0] if args else -1
            what = f'popitem{args} of {n}'
            ctx.n('popitem')
            if not n:
                raises(ctx, lambda: sd.popitem(*args), KeyError, what)
            elif -n <= i < n:
                got = sd.popitem(*args)
                same(ctx, [got], [(K[i], model[K[i]])], what)
                del model[K[i]]
            else:
                ctx.n('position_error')
                raises(ctx, lambda: sd.popitem(*args), IndexError, what)
        elif name == 'del_view_int':
            view = rng.choice(rng.choice(views))
            i = work.pick_index(rng, sd, n)
            what = f'del {type(view).__name__}[{i}] of {n}'
            if -n <= i < n:
                ctx.n('view_del_int')
                del view[i]
                del model[K[i]]
            else:
                ctx.n('position_error')
                raises(ctx, lambda: view.__delitem__(i), IndexError, what)
        elif name == 'del_view_slice':
            view = rng.choice(rng.choice(views))
            s = work.pick_slice(rng, sd, n)
            what = f'del {type(view).__name__}[{s}] of {n}'
            ctx.n('view_del_slice')
            del view[s]
            for q in K[s]:
                del model[q]
        elif name == 'clear':
            sd.clear()
            model.clear()
        elif name == 'reset':
            sd._reset(rng.choice((4, 5, 8, 50)))
        elif name == 'take_views':
            for vs, f in zip(views, (sd.keys, sd.items, sd.values)):
                vs.append(f())
        ctx.log(what, k)
        K = list(sd)
        ctx.check(len(K) == len(model) and all(q in model for q in K), f'{what}: keys left', K, list(model))
        ctx.eq(len(sd), len(K), f'{what}: len')
        for q in (K if len(K) < 80 else K[:: len(K) // 40]):
            ctx.check(dict.__getitem__(sd, q) is model[q], f'{what}: value of {q!r}')
        mir = Mirror(sd, model, K)
        ctx.n('old_views')
        for _ in range(rng.randrange(1, 4)):
            query(ctx, rng, mir, views, dom)
