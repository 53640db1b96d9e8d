"""C13: purity of results and operands; aliased arguments."""

from itertools import chain

from .. import work
from ..anyobj import change, contents, identical, make, pick_world, sane
from ..dictwork import Val
from ..target import SortedDict, SortedList, SortedSet

ID = 'C13'
LEVEL = 'exploration'
TECHNIQUE = 'random operands watched by identity while results and other operands are changed; alias-vs-snapshot differential'
QUICK_CASES = 14000
RULE = ('a case builds a container and an operand, performs result-returning operations, checks that neither '
        'changed, then changes result, operand and receiver in turn while the others are watched; or applies a bulk '
        'operation to an argument that aliases the receiver (itself, views, iterators, generators, slices of it) and '
        'compares with the same operation on a clone given the argument read out beforehand; distinct by class, '
        'domain, size, operation and form of argument')
ASSUMPTIONS = ['stored values are not themselves changed']
REQUIRED = ['oracle_checks', 'pure', 'alias', 'in_place', 'returned_list', 'iterator', 'constructor', 'list', 'keylist', 'set', 'dict']


# -- pure operations: (name, f(receiver, operand) -> result) ----------------------


LIST_PURE = {
    'add': lambda c, o: c + o, 'mul2': lambda c, o: c * 2, 'mul1': lambda c, o: c * 1, 'mul0': lambda c, o: c * 0,
    'rmul': lambda c, o: 1 * c, 'radd': lambda c, o: c.__radd__(o), 'radd_list': lambda c, o: o + c if type(o) is list else c.__radd__(o), 'copy': lambda c, o: c.copy(), 'slice': lambda c, o: c[:],
    'slice_first': lambda c, o: c[:3], 'slice_mid': lambda c, o: c[len(c) // 3:len(c) // 2 + 1],
    'slice_last': lambda c, o: c[-3:], 'slice_rev': lambda c, o: c[::-1], 'slice_step': lambda c, o: c[::2],
    'slice_0_len': lambda c, o: c[0:len(c)], 'cmp': lambda c, o: [c == o, c != o],
}
SET_PURE = {
    'union': lambda c, o: c.union(o), 'union0': lambda c, o: c.union(), 'intersection': lambda c, o: c.intersection(o),
    'intersection0': lambda c, o: c.intersection(), 'difference': lambda c, o: c.difference(o),
    'difference0': lambda c, o: c.difference(), 'symmetric_difference': lambda c, o: c.symmetric_difference(o),
    'or': lambda c, o: c | o, 'and': lambda c, o: c & o, 'sub': lambda c, o: c - o, 'xor': lambda c, o: c ^ o,
    'copy': lambda c, o: c.copy(), 'slice': lambda c, o: c[:], 'slice_mid': lambda c, o: c[1:4],
    'union2': lambda c, o: c.union(o, o), 'query': lambda c, o: [c.isdisjoint(o), c.issubset(o), c.issuperset(o)],
    'ror': lambda c, o: list(o) | c, 'rand': lambda c, o: list(o) & c, 'rsub': lambda c, o: list(o) - c,
    'rxor': lambda c, o: list(o) ^ c, 'ror_o': lambda c, o: c.__ror__(o), 'rand_o': lambda c, o: c.__rand__(o),
    'rsub_o': lambda c, o: c.__rsub__(o), 'rxor_o': lambda c, o: c.__rxor__(o), 'or_self': lambda c, o: c | c, 'and_self': lambda c, o: c & c,
    'sub_self': lambda c, o: c - c,
}
DICT_PURE = {
    'or': lambda c, o: c | o, 'ror': lambda c, o: dict(o) | c, 'ror_o': lambda c, o: c.__ror__(o), 'copy': lambda c, o: c.copy(),
    'keys_slice': lambda c, o: c.keys()[:], 'items_slice': lambda c, o: c.items()[:],
    'values_slice': lambda c, o: c.values()[:], 'keys_mid': lambda c, o: c.keys()[1:4],
    'eq': lambda c, o: [c == o, c != o], 'or_self': lambda c, o: c | c,
}
PURE = {'list': LIST_PURE, 'keylist': LIST_PURE, 'set': SET_PURE, 'dict': DICT_PURE}


def operand(rng, kind, dom, c):
    """(form, operand, contents function, change function)"""
    n = len(c)
    vals = [work.pick_value(rng, dom, list(c), 0.5) for _ in range(work.pick_bulk_size(rng, n))]
    if kind == 'dict':
        pairs = [(v, Val(i)) for i, v in enumerate(vals)]
        form = rng.choice((dict, lambda p: SortedDict(dom.key, p)))
        o = form(pairs)

        def grow():
            o[dom.gen(rng)] = Val(9)
            if len(o) > 1:
                del o[next(iter(o))]

        return type(o).__name__, o, lambda: list(o.items()), grow
    forms = ['list', 'sortedlist', 'same'] + (['set', 'sortedset'] if dom.hashable else [])
    form = rng.choice(forms)
    if form == 'list':
        o = list(vals)

        def grow():
            o.append(dom.gen(rng))
            o.reverse()
    elif form == 'sortedlist':
        o = SortedList(vals, key=dom.key)

        def grow():
            o.add(dom.gen(rng))
            del o[0]
    elif form == 'set':
        o = set(vals)

        def grow():
            o.add(dom.gen(rng))
            o.pop()
    else:
        if form == 'same':
            o = type(c)(vals) if dom.key is None else type(c)(vals, key=dom.key)
        else:
            o = SortedSet(vals, key=dom.key)

        def grow():
            o.add(dom.gen(rng))
            del o[-1]
    return form, o, lambda: list(o), grow


def same_ids(a, b):
    return len(a) == len(b) and all(
        x is y or (type(x) is tuple and type(y) is tuple and len(x) == len(y) == 2 and x[0] is y[0] and x[1] is y[1])
        for x, y in zip(a, b))


def pure(ctx, rng, kind, c, dom):
    name = rng.choice(list(PURE[kind]))
    f = PURE[kind][name]
    form, o, ocont, ogrow = operand(rng, kind, dom, c)
    if name == 'cmp' and form == 'set':
        name, f = 'copy', PURE[kind]['copy']
    what = f'{type(c).__name__} {name} with {form}'
    ctx.log(what, ocont())
    ctx.shape(kind, dom.name, len(c), name, form)
    cb, ob = contents(kind, c), ocont()
    res = f(c, o)
    ctx.n('pure')
    ctx.check(res is not c and res is not o, f'{what}: result is an operand')
    ctx.check(identical(kind, cb, contents(kind, c)), f'{what} changed the receiver', cb, contents(kind, c))
    ctx.check(same_ids(ob, ocont()), f'{what} changed its operand', ob, ocont())
    if type(res) is list:
        ctx.n('returned_list')

        def rgrow():
            c0 = rng.randrange(3)
            if c0 == 0:
                res.append(None)
            elif c0 == 1:
                res.reverse()
            else:
                res.clear()
    else:
        def rgrow():
            change(rng, kind, res, dom)
            if rng.random() < 0.2:
                res.clear()

    def rcont():
        return list(res) if type(res) is list else contents(kind, res)

    steps = [('the result', rgrow), ('the operand', ogrow), ('the receiver', lambda: change(rng, kind, c, dom))]
    for _ in range(rng.randrange(3, 9)):
        who, act = rng.choice(steps)
        a, b, r = contents(kind, c), ocont(), rcont()
        act()
        if who != 'the receiver':
            ctx.check(identical(kind, a, contents(kind, c)), f'{what}: changing {who} changed the receiver', a,
                      contents(kind, c))
        if who != 'the operand':
            ctx.check(same_ids(b, ocont()), f'{what}: changing {who} changed the operand', b, ocont())
        if who != 'the result':
            ctx.check(same_ids(r, rcont()), f'{what}: changing {who} changed the result', r, rcont())
    sane(ctx, kind, c, dom, f'receiver after {what}')


def constructor(ctx, rng, kind, c, dom):
    """What a container was made from stays independent of it."""
    form, o, ocont, ogrow = operand(rng, kind, dom, c)
    ob = ocont()
    cls = type(c)
    k = rng.randrange(3)
    if kind == 'dict':
        new = cls(dom.key, o)
    elif k == 0 or kind == 'keylist':
        new = cls(o, key=dom.key) if dom.key is not None else cls(o)
    elif k == 1:
        new = cls() if dom.key is None else cls(key=dom.key)
        new.update(o)
    else:
        new = cls() if dom.key is None else cls(key=dom.key)
        if kind == 'set':
            new |= o
        else:
            new += o
    ctx.n('constructor')
    what = f'{cls.__name__} made from {form}'
    ctx.log(what, ob)
    ctx.shape('ctor', kind, dom.name, len(ob), form, k)
    ctx.check(same_ids(ob, ocont()), f'{what}: source changed', ob, ocont())
    for _ in range(6):
        a, b = contents(kind, new), ocont()
        if rng.random() < 0.5:
            ogrow()
            ctx.check(identical(kind, a, contents(kind, new)), f'{what}: changing the source changed it', a,
                      contents(kind, new))
        else:
            change(rng, kind, new, dom)
            ctx.check(same_ids(b, ocont()), f'{what}: changing it changed the source', b, ocont())
    sane(ctx, kind, new, dom, what)


def in_place(ctx, rng, kind, c, dom):
    """In-place operations leave their arguments alone and keep nothing of them but the values."""
    name = rng.choice(list(ALIAS_OPS[kind]))
    op = ALIAS_OPS[kind][name]
    several = kind == 'set' and name in ('update', 'difference_update', 'intersection_update')
    ops = [operand(rng, kind, dom, c) for _ in range(rng.choice((1, 1, 2, 3)) if several else 1)]
    if kind == 'dict' and rng.random() < 0.15:
        v = dict((f'k{i}', Val(i)) for i in range(rng.randrange(4)))
        if dom.name.startswith('ident'):
            keep = dict(v)
            c.update(**v)
            ctx.check(list(v) == list(keep) and all(v[k] is keep[k] for k in keep), 'update(**kw) changed the keywords', v)
    what = f'{type(c).__name__} {name} with {[o[0] for o in ops]}'
    ctx.log('in place', what, str([o[2]() for o in ops]))
    ctx.shape('in_place', kind, dom.name, len(c), name, [(o[0], len(o[2]())) for o in ops])
    before = [o[2]() for o in ops]
    op(c, *[o[1] for o in ops])
    ctx.n('in_place')
    for (form, o, ocont, _), b in zip(ops, before):
        ctx.check(same_ids(b, ocont()), f'{what} changed its argument ({form})', b, ocont())
        if hasattr(o, '_check') and 'lt' not in dom.name:
            o._check()
    for _ in range(rng.randrange(2, 6)):
        i = rng.randrange(-1, len(ops))
        a, bs = contents(kind, c), [o[2]() for o in ops]
        if i < 0:
            change(rng, kind, c, dom)
        else:
            ops[i][3]()
            ctx.check(identical(kind, a, contents(kind, c)), f'{what}: changing the argument afterwards changed the receiver',
                      a, contents(kind, c))
        for j, (o, b) in enumerate(zip(ops, bs)):
            if j != i:
                ctx.check(same_ids(b, o[2]()), f'{what}: a later change of the receiver, or of another argument, changed '
                          f'an argument', b, o[2]())
    sane(ctx, kind, c, dom, 'receiver after ' + what)


def iterators(ctx, rng, kind, c, dom):
    """Reading iterators, even only half way, changes nothing."""
    n = len(c)
    before = contents(kind, c)
    its = [iter(c), reversed(c), c.irange(), c.irange(reverse=True), c.islice(n // 3, n // 2 + 3),
           c.islice(reverse=True)]
    if kind == 'dict':
        its += [iter(c.items()), reversed(c.values())]
    for it in its:
        for _ in range(rng.randrange(n + 2)):
            next(it, None)
    for it in rng.sample(its, 3):
        list(it)
    ctx.n('iterator')
    ctx.shape('iter', kind, dom.name, n)
    ctx.check(identical(kind, before, contents(kind, c)), 'iteration changed the container')


# -- aliased arguments ---------------------------------------------------------------


def seq_aliases(c):
    """Forms of argument built over the receiver itself."""
    return {
        'self': lambda: c, 'iter': lambda: iter(c), 'reversed': lambda: reversed(c),
        'gen': lambda: (x for x in c), 'gen_filter': lambda: (x for i, x in enumerate(c) if i % 2),
        'irange': lambda: c.irange(), 'irange_rev': lambda: c.irange(reverse=True),
        'islice': lambda: c.islice(0, len(c) // 2 + 1), 'chain': lambda: chain(c, c),
        'map': lambda: map(c.__getitem__, range(len(c))), 'full_slice': lambda: c[:], 'half_slice': lambda: c[len(c) // 2:],
        'gen_index': lambda: (c[i] for i in range(len(c))),
        'gen_len': lambda: (x for x in list(c)[: len(c)]),
        'gen_in': lambda: (x for x in c if x in c),
    }


def dict_aliases(c):
    return {
        'self': lambda: c, 'items': lambda: c.items(), 'iter_items': lambda: iter(c.items()),
        'gen': lambda: ((k, v) for k, v in c.items()), 'rev': lambda: reversed(c.items()),
        'half': lambda: ((k, c[k]) for k in c.islice(0, len(c) // 2 + 1)),
        'swap': lambda: zip(c, reversed(c.values())), 'copy': lambda: c.copy(), 'slice': lambda: c.items()[::2],
        'irange': lambda: ((k, c[k]) for k in c.irange()),
    }


def _ior(c, *a):
    c |= a[0]


def _iand(c, *a):
    c &= a[0]


def _isub(c, *a):
    c -= a[0]


def _ixor(c, *a):
    c ^= a[0]


def _iadd(c, *a):
    c += a[0]


ALIAS_OPS = {
    'list': {'update': lambda c, *a: c.update(a[0]), '+=': _iadd},
    'set': {'update': lambda c, *a: c.update(*a), 'difference_update': lambda c, *a: c.difference_update(*a),
            'intersection_update': lambda c, *a: c.intersection_update(*a),
            'symmetric_difference_update': lambda c, *a: c.symmetric_difference_update(a[0]),
            '|=': _ior, '&=': _iand, '-=': _isub, '^=': _ixor},
    'dict': {'update': lambda c, *a: c.update(a[0]), '|=': _ior},
}
ALIAS_OPS['keylist'] = ALIAS_OPS['list']


def alias(ctx, rng, kind, c, dom):
    forms = dict_aliases(c) if kind == 'dict' else seq_aliases(c)
    opname = rng.choice(list(ALIAS_OPS[kind]))
    op = ALIAS_OPS[kind][opname]
    k = rng.choice((1, 1, 2)) if kind == 'set' else 1
    names = [rng.choice(list(forms)) for _ in range(k)]
    ctx.log('alias', kind, opname, str(names), contents(kind, c))
    ctx.shape('alias', kind, dom.name, len(c), opname, names)
    clone = c.copy()
    read = []
    for nm in names:
        x = forms[nm]()
        read.append(list(x.items()) if kind == 'dict' and isinstance(x, dict) else list(x))
    want = op(clone, *read)
    got = op(c, *[forms[nm]() for nm in names])
    del want, got
    a, b = contents(kind, c), contents(kind, clone)
    ctx.n('alias')
    what = f'{opname} with {names} over the receiver itself'
    if kind == 'set' and dom.key is not None and not dom.inject:
        ok = len(a) == len(b) and set(a) == set(b)
    elif kind == 'dict':
        ok = len(a) == len(b) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(a, b))
    elif kind == 'set':
        ok = a == b
    else:
        ok = identical(kind, a, b)
    ctx.check(ok, f'{what}: result / result with the argument read out first', a, b)
    sane(ctx, kind, c, dom, what)


def case(ctx):
    rng = ctx.rng
    prof = work.profile(rng)
    if prof.name in ('wide', 'default', 'large') and rng.random() < 0.7:
        prof = work.profile(rng, only=('tiny', 'small'))
    kind, cls, dom = pick_world(rng, n=prof.n)
    c = make(rng, kind, cls, dom, prof.load, dom.some(rng, prof.n))
    ctx.n(kind)
    ctx.log('world', kind, cls.__name__, repr(dom), str(prof))
    for _ in range(3):
        r = rng.random()
        if r < 0.35:
            pure(ctx, rng, kind, c, dom)
        elif r < 0.55:
            in_place(ctx, rng, kind, c, dom)
        elif r < 0.85:
            alias(ctx, rng, kind, c, dom)
        elif r < 0.93:
            constructor(ctx, rng, kind, c, dom)
        else:
            iterators(ctx, rng, kind, c, dom)
        if len(c) > 4000:
            c.clear()
