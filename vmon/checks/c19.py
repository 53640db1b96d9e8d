"""C19: every impossible request in every reached state raises the documented error and leaves no trace."""

import operator

from .. import ops, work
from ..anyobj import SubKeyList, SubList, contents, identical, sane
from ..dictwork import Val
from ..target import (
    MidList, SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet,
)
from ..values import Rec, any_dom, keyed_dom, plain_dom, roomy

ID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('impossible requests generated against the current contents between random operations; exception type '
             'and before/after contents judged by what a plain list, set or dict of them says')
QUICK_CASES = 10000
RULE = ('a case drives a container of a random class through a random history and, between operations, makes requests '
        'a plain list, set or dict of the same contents could not serve (absent values next to, between and beyond '
        'stored ones and of equal key, positions off either end, empty containers, unhashable keys, the disabled '
        'position-assigning methods, keys for unkeyed subclasses), checks the exact exception type and that nothing '
        'changed; distinct by class, domain, size, load factor and requests')
ASSUMPTIONS = ['absent values are comparable with the stored ones (C11 has the others)']
REQUIRED = ['oracle_checks', 'requests', 'ValueError', 'KeyError', 'IndexError', 'NotImplementedError', 'TypeError',
            'no_error', 'on_empty', 'on_large', 'equal_key_absent', 'operators', 'list', 'keylist', 'set', 'dict']
CLASSES = {'list': (SortedList, SortedList, SmallList, MidList, SubList),
           'keylist': (SortedKeyList, SortedKeyList, SmallKeyList, SubKeyList),
           'set': (SortedSet, SubSet), 'dict': (SortedDict, SubDict)}


def k_any(v):
    return 0


def absent(ctx, rng, dom, ref):
    """A value equal to no stored one (None when none was found)."""
    for _ in range(12):
        v = dom.gen(rng)
        if ref and rng.random() < 0.4 and dom.key is not None and not dom.inject and isinstance(ref[0], Rec):
            v = type(ref[0])(rng.choice(ref).k, 999)
        if not any(v == x for x in ref):
            if dom.key is not None and any(not dom.key(v) < dom.key(x) and not dom.key(x) < dom.key(v) for x in ref[:200]):
                ctx.n('equal_key_absent')
            return True, v
    return False, None


def off(rng, n):
    return rng.choice((n, n + 1, n + 7, n + 1000, 10**12, 2**70, -n - 1, -n - 2, -n - 1000, -(10**12), -(2**70)))


def setitem(c, i, v):
    c[i] = v


def delitem(c, i):
    del c[i]


class Alien:
    def __repr__(self):
        return 'Alien()'


BINARY = {
    '+': operator.add, '*': operator.mul, '|': operator.or_, '&': operator.and_, '-': operator.sub, '^': operator.xor,
    '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
    '+=': operator.iadd, '*=': operator.imul, '|=': operator.ior, '&=': operator.iand, '-=': operator.isub,
    '^=': operator.ixor,
}


def operators(ctx, rng, kind, c, out):
    """Operands nothing can be made of, on either side."""
    for _ in range(2):
        sym = rng.choice(sorted(BINARY))
        x = rng.choice((None, 5, 1.5, Alien(), Ellipsis, -3, True))
        if kind in ('list', 'keylist') and sym in ('*', '*=') and isinstance(x, int):
            x = 1.5
        f = BINARY[sym]
        if rng.random() < 0.5 or sym.endswith('=') and sym[0] not in '<>':
            out.append((f'operator: {sym} {x!r}', lambda f=f, x=x: f(c, x), TypeError))
        else:
            out.append((f'operator: {x!r} {sym} it', lambda f=f, x=x: f(x, c), TypeError))
    if kind == 'dict':
        x = rng.choice(([], [(1, 2)], (), {1}, 'ab', iter(())))
        out.append((f'operator: | {type(x).__name__}', lambda: c | x, TypeError))
        out.append((f'operator: {type(x).__name__} |', lambda: x | c, TypeError))


def requests(ctx, rng, kind, c, dom, ref):
    """(description, function, exception type or None, expected result)"""
    n = len(ref)
    out = []
    add = out.append
    found, a = absent(ctx, rng, dom, ref)
    i = off(rng, n)
    has = rng.choice(ref) if n else None
    seq = c.keys() if kind == 'dict' else c
    operators(ctx, rng, kind, c, out)
    add(('read at %d' % i, lambda: seq[i], IndexError))
    add(('delete at %d' % i, lambda: delitem(seq, i), IndexError))
    add(('slice with step 0', lambda: seq[::0], ValueError))
    add(('delete slice with step 0', lambda: delitem(seq, slice(None, None, 0)), ValueError))
    if kind != 'dict':
        add(('pop(%d)' % i, lambda: c.pop(i), IndexError))
        if not n:
            add(('pop() when empty', lambda: c.pop(), IndexError))
    if found:
        add(('index of an absent value', lambda: c.index(a), ValueError))
        add(('index of an absent value in a range', lambda: c.index(a, 0, n), ValueError))
        add(('membership of an absent value', lambda: a in c, None, False))
    if n:
        p = ref.index(has)
        last = n - 1 - ref[::-1].index(has)
        add(('index of a value past its last place', lambda: c.index(has, last + 1), ValueError))
        add(('index of a value before its first place', lambda: c.index(has, 0, p), ValueError))
        add(('index of a value in an empty range', lambda: c.index(has, p, p), ValueError))
        add(('index of a value in an inverted range', lambda: c.index(has, p + 1, p), ValueError))
        add(('index of a value off the end', lambda: c.index(has, n), ValueError))
        add(('index of a value off the end', lambda: c.index(has, n + 5, n + 10), ValueError))
    if kind in ('list', 'keylist'):
        x = dom.gen(rng)
        if found:
            add(('remove of an absent value', lambda: c.remove(a), ValueError))
            add(('discard of an absent value', lambda: c.discard(a), None, None))
            add(('count of an absent value', lambda: c.count(a), None, 0))
        j = rng.choice((0, -1, n - 1, n, i))
        add(('item assignment', lambda: setitem(c, j, x), NotImplementedError))
        add(('assignment of the same value', lambda: setitem(c, 0, has), NotImplementedError))
        add(('slice assignment', lambda: setitem(c, slice(0, rng.randrange(3)), [x]), NotImplementedError))
        add(('slice assignment', lambda: setitem(c, slice(None), []), NotImplementedError))
        add(('append', lambda: c.append(x), NotImplementedError))
        add(('append of a largest value', lambda: c.append(ref[-1] if n else x), NotImplementedError))
        add(('extend', lambda: c.extend([x]), NotImplementedError))
        add(('extend by nothing', lambda: c.extend([]), NotImplementedError))
        add(('insert', lambda: c.insert(j, x), NotImplementedError))
        add(('reverse', lambda: c.reverse(), NotImplementedError))
        if kind == 'list':
            t = rng.choice((SmallList, MidList, SubList))
            k = rng.choice((k_any, str, len))
            add(('a key for an unkeyed subclass', lambda: t(key=k), TypeError))
            add(('a key for an unkeyed subclass', lambda: t(list(ref), k), TypeError))
    else:
        bad = rng.choice(([], {}, [1], bytearray(b'x')))
        hashes = [('membership', lambda: bad in c)]
        if kind == 'set':
            if found:
                add(('remove of an absent member', lambda: c.remove(a), KeyError))
                add(('discard of an absent member', lambda: c.discard(a), None, None))
                add(('count of an absent member', lambda: c.count(a), None, 0))
            hashes += [('add', lambda: c.add(bad)), ('remove', lambda: c.remove(bad)),
                       ('discard', lambda: c.discard(bad)), ('update', lambda: c.update([bad]))]
            if n:
                hashes += [('difference_update', lambda: c.difference_update([bad])),
                           ('union', lambda: c.union([bad])), ('issuperset', lambda: c.issuperset([bad]))]
        else:
            d = Val(5)
            if found:
                add(('reading an absent key', lambda: c[a], KeyError))
                add(('deleting an absent key', lambda: delitem(c, a), KeyError))
                add(('pop of an absent key', lambda: c.pop(a), KeyError))
                add(('pop of an absent key with default', lambda: c.pop(a, d), None, d))
                add(('pop of an absent key with default None', lambda: c.pop(a, None), None, None))
                add(('pop of an absent key with keyword default', lambda: c.pop(a, default=d), None, d))
                add(('get of an absent key', lambda: c.get(a), None, None))
                add(('get of an absent key with default', lambda: c.get(a, d), None, d))
            if n:
                add(('pop of a value as key', lambda: c.keys().index(has, n), ValueError))
                add(('popitem(%d)' % i, lambda: c.popitem(i), IndexError))
            else:
                add(('popitem() when empty', lambda: c.popitem(), KeyError))
                add(('popitem(i) when empty', lambda: c.popitem(rng.choice((0, -1, 5))), KeyError))
                add(('peekitem() when empty', lambda: c.peekitem(), IndexError))
            add(('peekitem(%d)' % i, lambda: c.peekitem(i), IndexError))
            for w in ('items', 'values'):
                view = getattr(c, w)()
                add((f'{w} view at %d' % i, lambda view=view: view[i], IndexError))
                add((f'{w} view, delete at %d' % i, lambda view=view: delitem(view, i), IndexError))
            add(('values().index', lambda: c.values().index(Val(-77)), ValueError))
            add(('items().index', lambda: c.items().index(('x', Val(-77))) if not n else c.items().index((has, Val(-77))),
                 ValueError))
            if found:
                add(('keys().index', lambda: c.keys().index(a), ValueError))
            hashes += [('set', lambda: setitem(c, bad, d)), ('read', lambda: c[bad]), ('delete', lambda: delitem(c, bad)),
                       ('get', lambda: c.get(bad)), ('setdefault', lambda: c.setdefault(bad, d)),
                       ('pop', lambda: c.pop(bad)), ('pop with default', lambda: c.pop(bad, d)),
                       ('update', lambda: c.update([(bad, d)]))]
        for name, f in hashes:
            add((f'unhashable: {name}', f, TypeError))
    return out


def ask(ctx, kind, c, dom, request):
    name, f, want = request[:3]
    ctx.log('request:', name)
    ctx.n('requests')
    if name.startswith('operator'):
        ctx.n('operators')
    before = contents(kind, c)
    n = len(c)
    try:
        v = f()
    except Exception as e:
        got = e
    else:
        got = None
    if want is None:
        ctx.n('no_error')
        ctx.check(got is None, f'{name} raised {type(got).__name__}: {got}')
        ctx.check(v is request[3] or (type(v) is type(request[3]) and v == request[3]), f'{name}: result / expected', v, request[3])
    else:
        ctx.n(want.__name__)
        if got is None:
            ctx.fail(f'{name}: no exception, {want.__name__} is documented; returned', v)
        ctx.check(type(got) is want, f'{name} raised {type(got).__name__} ({got}), {want.__name__} is documented')
    after = contents(kind, c)
    ctx.check(identical(kind, before, after) and len(c) == n, f'{name} changed the container', before, after)


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    ctx.n(kind)
    cls = rng.choice(CLASSES[kind])
    prof = work.profile(rng, 0.35)
    dom = (keyed_dom(rng) if kind == 'keylist' else plain_dom(rng) if kind == 'list' else
           roomy(rng, prof.n, lambda: any_dom(rng, hashable=True)))
    n = 0 if rng.random() < 0.08 else prof.n
    key = dom.key
    c = cls() if kind == 'list' else cls(key) if kind == 'dict' else cls(key=key)
    if prof.load:
        c._reset(prof.load)
    vals = dom.some(rng, n)
    c.update([(v, Val(i)) for i, v in enumerate(vals)] if kind == 'dict' else vals)
    names, w = work.weights(rng, ops.names_for(kind, dom))
    ctx.log('world', cls.__name__, repr(dom), f'n={n} load={prof.load}', vals)
    asked = []
    for i in range(max(3, prof.ops // 2)):
        name = rng.choices(names, w)[0]
        ref = list(c)
        op = ops.gen(rng, kind, dom, c, ref, name)
        ctx.log(*op)
        c, _ = ops.apply(kind, c, op)
        ref = list(c)
        if not ref:
            ctx.n('on_empty')
        elif len(ref) > 100:
            ctx.n('on_large')
        rs = requests(ctx, rng, kind, c, dom, ref)
        for r in rng.sample(rs, min(len(rs), rng.randrange(1, 7))):
            asked.append(r[0].split(' ')[0])
            ask(ctx, kind, c, dom, r)
        if rng.random() < 0.15:
            sane(ctx, kind, c, dom, 'after impossible requests')
    if rng.random() < 0.2:
        c.clear()
        for r in requests(ctx, rng, kind, c, dom, []):
            ask(ctx, kind, c, dom, r)
            ctx.n('on_empty')
    sane(ctx, kind, c, dom, 'at the end')
    ctx.shape(kind, cls.__name__, dom.name, n, prof.load, tuple(asked))
