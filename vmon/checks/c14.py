"""C14: comparison operators, both directions, against plain lists, sets and dicts."""

import operator
from collections import ChainMap, OrderedDict, UserDict, UserList, deque
from types import MappingProxyType

from .. import work
from ..anyobj import SubKeyList, SubList, make
from ..dictwork import Val
from ..target import SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet
from ..values import Loose, keyed_dom, plain_dom

ID = 'C14'
LEVEL = 'exploration'
TECHNIQUE = 'all operators in both directions on related random pairs, compared with plain lists, sets and dicts'
QUICK_CASES = 20000
RULE = ('a case builds a container and a related other object (equal, prefix, one element changed, subset, superset, '
        'overlapping, random, or of an unrelated type) and evaluates all six operators in both directions against '
        'the answer of plain lists, sets or dicts of the same elements; distinct by classes, domain, sizes and relation')
ASSUMPTIONS = ['elements compare consistently with one another (no NaN)']
REQUIRED = ['oracle_checks', 'list_eq', 'list_order', 'set_cmp', 'dict_eq', 'unrelated', 'equal_pairs', 'unequal_pairs',
            'order_typeerror', 'prefix', 'resegmented']
OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
MIRROR = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}


def agree(ctx, x, y, rx, ry, what, names=tuple(OPS)):
    """x op y answers as rx op ry, and y op' x likewise."""
    loose = any(type(v) is Loose for v in rx)   # a list answers with what its elements answer
    for name in names:
        want = work.outcome_of(lambda: OPS[name](rx, ry))
        got = work.outcome_of(lambda: OPS[name](x, y))
        back = work.outcome_of(lambda: OPS[MIRROR[name]](y, x))
        for g, w in ((got, 'x op y'), (back, "y op' x")):
            if want[0] == 'exc':
                ctx.n('order_typeerror')
                ctx.check(g[0] == 'exc' and type(g[1]) is type(want[1]), f'{what}: {name} ({w}) should raise', g, want)
            else:
                ctx.check(g[0] == 'ok' and (bool(g[1]) if loose else g[1]) is bool(want[1]),
                          f'{what}: {name} ({w}): got / expected', g, want)
        if name == '==' and want[0] == 'ok':
            ctx.n('equal_pairs' if want[1] else 'unequal_pairs')


UNRELATED = [lambda: 5, lambda: None, lambda: 1.5, lambda: object(), lambda: (x for x in ()), lambda: int,
             lambda: iter([])]


def unrelated(ctx, x, y, what):
    ctx.n('unrelated')
    agree_unrelated = [('==', False), ('!=', True)]
    for name, want in agree_unrelated:
        ctx.check(OPS[name](x, y) is want, f'{what}: {name}', OPS[name](x, y))
        ctx.check(OPS[name](y, x) is want, f'{what}: reflected {name}', OPS[name](y, x))
    for name in ('<', '<=', '>', '>='):
        for a, b in ((x, y), (y, x)):
            st, val = work.outcome_of(lambda: OPS[name](a, b))
            ctx.n('order_typeerror')
            ctx.check(st == 'exc' and type(val) is TypeError, f'{what}: {name} should be a TypeError', st, val)


def related_list(rng, dom, ref):
    """(relation, values)"""
    c = rng.randrange(10)
    n = len(ref)
    if n > 1 and rng.random() < (0.5 if n > 600 else 0.1):
        # still in order, mostly with the same values at both ends of every segment
        out = list(ref)
        for _ in range(rng.choice((1, 1, 3))):
            i = rng.randrange(n)
            out[i] = out[max(i - 1, 0)] if rng.random() < 0.5 else out[min(i + 1, n - 1)]
        return 'nudged', out
    if c == 0:
        return 'equal', list(ref)
    if c == 1:
        return 'twins', [dom.twin(rng, v) for v in ref]
    if c == 2:
        return 'prefix', ref[: rng.randrange(n + 1)]
    if c == 3:
        return 'extended', ref + dom.some(rng, rng.randrange(1, 4))
    if c in (4, 5) and n:
        i = work.edges(rng, None, n) if rng.random() < 0.5 else n - 1
        out = list(ref)
        out[i] = dom.gen(rng)
        return 'changed', out
    if c == 6 and n:
        i = rng.randrange(n)
        return 'dropped', ref[:i] + ref[i + 1:]
    if c == 7:
        return 'reversed', ref[::-1]
    if c == 8:
        return 'empty', []
    return 'random', dom.some(rng, rng.randrange(0, n + 3))


def on_list(ctx, rng):
    keyed = rng.random() < 0.4
    dom = keyed_dom(rng) if keyed else plain_dom(rng)
    prof = work.profile(rng, only=('tiny', 'tiny', 'small', 'medium'), rare=0.02)
    kind = 'keylist' if keyed else 'list'
    cls = rng.choice((SortedKeyList, SubKeyList)) if keyed else rng.choice((SortedList, SubList))
    sl = make(rng, kind, cls, dom, prof.load, dom.some(rng, prof.n))
    ref = list(sl)
    rel, vals = related_list(rng, dom, ref)
    form = rng.choice(('list', 'tuple', 'deque', 'userlist', 'sorted', 'sorted', 'sortedset', 'str', 'range', 'self', 'bytes'))
    want = vals
    if form == 'list':
        o = list(vals)
    elif form == 'tuple':
        o = tuple(vals)
    elif form == 'deque':
        o = deque(vals)
    elif form == 'userlist':
        o = UserList(vals)
    elif form == 'sorted':
        k = dom.key if not dom.orderable or rng.random() < 0.5 else None
        o = SortedList(vals, key=k)
        want = list(o)
    elif form == 'sortedset':
        if not dom.hashable:
            o = list(vals)
        else:
            o = SortedSet(vals, key=dom.key)
            want = list(o)
    elif form == 'str':
        dom = plain_dom(rng)
        sl = SortedList('hello'[: rng.randrange(6)])
        ref = list(sl)
        o = rng.choice(('ehllo', 'ehll', 'ehlloo', '', 'f', ''.join(ref), ''.join(ref) + 'a'))
        want = list(o)
    elif form == 'bytes':
        sl = SortedList(rng.randrange(6) for _ in range(rng.randrange(5)))
        ref = list(sl)
        want = [rng.randrange(6) for _ in ref] if rng.random() < 0.3 else ref[:rng.randrange(len(ref) + 1)] + [3] * rng.randrange(2)
        if rng.random() < 0.3:
            want = ref
        o = rng.choice((bytes, bytearray))(want)
    elif form == 'range':
        k = rng.randrange(5)
        sl = SortedList(range(rng.randrange(2), k))
        ref = list(sl)
        o = range(rng.randrange(2), rng.choice((k, k + 1, 3)))
        want = list(o)
    else:
        o = sl
        want = ref
    if form == 'sorted' and rng.random() < 0.7:
        # the same values over other segment borders
        ctx.n('resegmented')
        load = rng.choice((4, 4, 5, 7, 10))
        for x in (sl, o):
            x._reset(load)
            for _ in range(rng.choice((0, 1, 2, 8)) if x else 0):
                v = x.pop(rng.choice((0, -1, rng.randrange(len(x)))))
                extra = [rng.choice(x) for _ in range(rng.choice((0, 1, 6)))] if x else []
                for e in extra:
                    x.add(e)
                for e in extra:
                    del x[work.first_is(x, e)]
                x.add(v)
        ref, want = list(sl), list(o)
    ctx.log('list', form, rel, ref, want)
    ctx.shape('list', cls.__name__, dom.name, form, rel, len(ref), len(want))
    if rel in ('prefix', 'extended'):
        ctx.n('prefix')
    what = f'{type(sl).__name__} and {type(o).__name__}'
    agree(ctx, sl, o, ref, want, what, ('==', '!='))
    ctx.n('list_eq')
    if form in ('list', 'tuple', 'deque', 'userlist', 'sorted', 'sortedset', 'str', 'range', 'self', 'bytes'):
        ctx.n('list_order')
        agree(ctx, sl, o, ref, want, what, ('<', '<=', '>', '>='))
    ctx.check(list(sl) == ref, 'comparison changed the list')
    unrelated(ctx, sl, rng.choice(UNRELATED + [lambda: {1: 2}, lambda: {1, 2}, lambda: frozenset()])(), what)


def on_set(ctx, rng):
    dom = keyed_dom(rng, hashable=True) if rng.random() < 0.3 else plain_dom(rng, hashable=True)
    prof = work.profile(rng, only=('tiny', 'tiny', 'small', 'medium'), rare=0.004)
    cls = rng.choice((SortedSet, SubSet))
    ss = make(rng, 'set', cls, dom, prof.load, dom.some(rng, prof.n))
    ref = list(ss)
    n = len(ref)
    c = rng.randrange(8)
    some = [v for v in ref if rng.random() < 0.6]
    if c == 0:
        rel, vals = 'equal', [dom.twin(rng, v) for v in ref]
    elif c == 1:
        rel, vals = 'subset', some
    elif c == 2:
        rel, vals = 'all but one', ref[1:] if rng.random() < 0.5 else ref[:-1]
    elif c == 3:
        rel, vals = 'superset', ref + dom.some(rng, 2)
    elif c == 4:
        rel, vals = 'overlap', some + dom.some(rng, 2)
    elif c == 5:
        rel, vals = 'one changed', ref[1:] + dom.some(rng, 1)
    elif c == 6:
        rel, vals = 'empty', []
    else:
        rel, vals = 'random', dom.some(rng, rng.randrange(n + 2))
    form = rng.choice(('set', 'frozenset', 'sortedset', 'sortedset', 'subset', 'keys', 'sortedkeys', 'self', 'otherkey'))
    want = set(vals)
    if form == 'set':
        o = set(vals)
    elif form == 'frozenset':
        o = frozenset(vals)
    elif form == 'sortedset':
        o = SortedSet(vals, key=dom.key)
    elif form == 'subset':
        o = SubSet(vals, key=dom.key)
    elif form == 'otherkey':
        o = SortedSet(vals, key=id)
    elif form == 'keys':
        o = dict.fromkeys(vals).keys()
    elif form == 'sortedkeys':
        o = SortedDict(dom.key, dict.fromkeys(vals)).keys()
    else:
        o, want = ss, set(ref)
    ctx.log('set', form, rel, ref, vals)
    ctx.shape('set', cls.__name__, dom.name, form, rel, n, len(want))
    ctx.n('set_cmp')
    what = f'{cls.__name__} and {type(o).__name__}'
    agree(ctx, ss, o, set(ref), want, what)
    ctx.check(list(ss) == ref, 'comparison changed the set')
    unrelated(ctx, ss, rng.choice(UNRELATED + [lambda: {1: 2}, lambda: list(ref), lambda: tuple(ref), lambda: 'ab'])(),
              what)


def on_dict(ctx, rng):
    dom = keyed_dom(rng, hashable=True) if rng.random() < 0.3 else plain_dom(rng, hashable=True)
    prof = work.profile(rng, only=('tiny', 'tiny', 'small', 'medium'), rare=0.004)
    cls = rng.choice((SortedDict, SubDict))
    sd = make(rng, 'dict', cls, dom, prof.load, dom.some(rng, prof.n))
    ref = {k: dict.__getitem__(sd, k) for k in list(sd)}
    items = [(dom.twin(rng, k), Val(v.n)) for k, v in ref.items()]
    rng.shuffle(items)
    c = rng.randrange(6)
    rel = ('equal', 'equal', 'value', 'key', 'dropped', 'extended')[c]
    if c == 2 and items:
        i = rng.randrange(len(items))
        items[i] = (items[i][0], Val(-1))
    elif c == 3 and items:
        items[0] = (dom.gen(rng), items[0][1])
    elif c == 4:
        items = items[1:]
    elif c == 5:
        items = items + [(dom.gen(rng), Val(7))]
    base = dict(items)
    form = rng.choice(('dict', 'ordered', 'userdict', 'proxy', 'chain', 'sorted', 'sorted', 'sub', 'otherkey', 'self'))
    if form == 'dict':
        o = base
    elif form == 'ordered':
        o = OrderedDict(items)
    elif form == 'userdict':
        o = UserDict(base)
    elif form == 'proxy':
        o = MappingProxyType(base)
    elif form == 'chain':
        o = ChainMap(base)
    elif form == 'sorted':
        o = SortedDict(dom.key, items)
    elif form == 'sub':
        o = SubDict(dom.key, items)
    elif form == 'otherkey':
        o = SortedDict(id, items)
    else:
        o, base = sd, ref
    ctx.log('dict', form, rel, list(ref.items()), items)
    ctx.shape('dict', cls.__name__, dom.name, form, rel, len(ref))
    ctx.n('dict_eq')
    what = f'{cls.__name__} and {type(o).__name__}'
    agree(ctx, sd, o, ref, base, what, ('==', '!='))
    for name in ('<', '<=', '>', '>='):
        for a, b in ((sd, o), (o, sd)):
            st, val = work.outcome_of(lambda: OPS[name](a, b))
            ctx.n('order_typeerror')
            ctx.check(st == 'exc' and type(val) is TypeError, f'{what}: {name} should be a TypeError', st, val)
    unrelated(ctx, sd, rng.choice(UNRELATED + [lambda: list(items), lambda: set(ref), lambda: 'ab'])(), what)


def case(ctx):
    for _ in range(4):
        r = ctx.rng.random()
        if r < 0.45:
            on_list(ctx, ctx.rng)
        elif r < 0.75:
            on_set(ctx, ctx.rng)
        else:
            on_dict(ctx, ctx.rng)
