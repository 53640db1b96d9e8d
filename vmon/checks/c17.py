"""C17: the same history on containers that differ only in load factor and reset moments, in lockstep."""

from .. import ops, work
from ..anyobj import SubKeyList, SubList, contents, identical
from ..target import (
    MidList, SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet,
)
from ..dictwork import Val
from ..values import any_dom, keyed_dom, plain_dom, roomy

ID = 'C17'
LEVEL = 'exploration'
TECHNIQUE = 'lockstep differential runs: one history, several load factors and reset schedules, every outcome compared'
QUICK_CASES = 6000
RULE = ('a case generates one history of operations as data and applies it to three or four containers of one kind '
        'whose load factors come from resets (at the start, at random moments, never) or subclass defaults; every '
        'outcome (values, objects, exceptions) and regularly the whole contents must be identical, and a reset '
        'itself must leave the contents as they are; distinct by kind, domain, size, loads and operation mix')
ASSUMPTIONS = ['load factors of at least 4, as documented', 'no comparison has side effects']
REQUIRED = ['oracle_checks', 'ops', 'resets', 'content_compares', 'list', 'keylist', 'set', 'dict', 'subclass_loads',
            'exceptions', 'splits_differ']
LOADS = (4, 5, 6, 7, 8, 10, 13, 16, 25, 50, 100, 1000, 4999)


class Load6List(SortedList):
    DEFAULT_LOAD_FACTOR = 6


class Load33KeyList(SortedKeyList):
    DEFAULT_LOAD_FACTOR = 33


LISTS = (SortedList, SmallList, MidList, Load6List, SubList)
KEYLISTS = (SortedKeyList, SmallKeyList, Load33KeyList, SubKeyList)


def blank(kind, cls, key):
    if kind == 'list':
        return cls()
    if kind == 'dict':
        return cls(key)
    return cls(key=key)


def segments(c):
    ls = getattr(c, '_lists', None)
    if ls is None:
        ls = getattr(getattr(c, '_list', None), '_lists', ())
    return len(ls)


def unclass(x):
    """Results without the class names, where subclasses carry the load factors."""
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'sorted':
        return ('sorted', x[2])
    return x


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(('list', 'list', 'keylist', 'keylist', 'set', 'dict'))
    prof = work.profile(rng, 0.8)
    if kind == 'keylist':
        dom = keyed_dom(rng)
    elif kind == 'list':
        dom = plain_dom(rng)
    else:
        dom = roomy(rng, prof.n, lambda: any_dom(rng, hashable=True))
    ctx.n(kind)
    m = rng.choice((2, 3, 3, 4))
    cs, plans, wobble = [], [], []
    for j in range(m):
        cls = {'list': SortedList, 'keylist': SortedKeyList, 'set': SortedSet, 'dict': SortedDict}[kind]
        load = None
        if kind in ('list', 'keylist') and rng.random() < 0.35:
            cls = rng.choice(LISTS if kind == 'list' else KEYLISTS)
            ctx.n('subclass_loads')
        if rng.random() < 0.8 or j == 0:
            load = prof.load if j == 0 and prof.load else rng.choice(LOADS)
        c = blank(kind, cls, dom.key)
        if load:
            c._reset(load)
        cs.append(c)
        plans.append((cls.__name__, load))
        wobble.append(rng.choice((0, 0, 0.03, 0.3)))
    ctx.log('world', kind, repr(dom), repr(plans), f'n={prof.n}')
    vals = dom.some(rng, prof.n)
    if kind == 'dict':
        first = [(v, Val(i)) for i, v in enumerate(vals)]
    else:
        first = vals
    grow = rng.choice(('bulk', 'bulk', 'one', 'half')) if prof.n < 700 else 'bulk'
    cut = len(first) if grow == 'bulk' else 0 if grow == 'one' else len(first) // 2
    for c in cs:
        c.update(first[:cut])
        for x in first[cut:]:
            if kind == 'dict':
                c[x[0]] = x[1]
            else:
                c.add(x)
    plain = {p[0] for p in plans} == {plans[0][0]}
    names, w = work.weights(rng, ops.names_for(kind, dom))
    ctx.shape(kind, dom.name, prof.n, tuple(plans), tuple(names))
    for i in range(prof.ops):
        for j, c in enumerate(cs):
            if rng.random() < wobble[j]:
                was = contents(kind, c)
                load = rng.choice(LOADS)
                ctx.log(f'reset container {j} to {load}')
                c._reset(load)
                ctx.n('resets')
                ctx.check(identical(kind, was, contents(kind, c)), f'_reset({load}) changed the contents', was,
                          contents(kind, c))
        name = rng.choices(names, w)[0]
        ref = list(cs[0])
        op = ops.gen(rng, kind, dom, rng.choice(cs), ref, name)
        ctx.log(*op)
        ctx.n('ops')
        outs = []
        for j in range(m):
            cs[j], out = ops.apply(kind, cs[j], op)
            outs.append(out)
        if outs[0][0] == 'exc':
            ctx.n('exceptions')
        a = outs[0]
        for j in range(1, m):
            b = outs[j]
            if not plain:
                if name == 'repr':
                    continue
                a2, b2 = (a[0], unclass(a[1])), (b[0], unclass(b[1]))
            else:
                a2, b2 = a, b
            ctx.check(ops.same(a2, b2) or eqvals(a2, b2),
                      f'{op[0]}: results differ between {plans[0]} and {plans[j]} (class, load)', a2, b2)
        if len({segments(c) for c in cs}) > 1:
            ctx.n('splits_differ')
        if rng.random() < 0.25 or i == prof.ops - 1:
            x = contents(kind, cs[0])
            for j in range(1, m):
                ctx.n('content_compares')
                y = contents(kind, cs[j])
                ctx.check(identical(kind, x, y), f'contents differ between {plans[0]} and {plans[j]} after {op[0]}', x, y)
                ctx.check(len(cs[0]) == len(cs[j]), 'lengths differ')
    if rng.random() < 0.5 and 'lt' not in dom.name:
        for c in cs:
            c._check()
            ctx.check(c == cs[0], 'containers of one history are unequal')


def eqvals(a, b):
    """Outcomes holding freshly made objects (tuples of a view, floats): equal all through."""
    try:
        return bool(a == b) and repr(a) == repr(b)
    except Exception:
        return False
