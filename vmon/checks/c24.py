"""C24: bytes held by a container, read from the allocator after every phase of its life."""

import gc
import sys
import tracemalloc

from .. import work
from ..core import Ctx
from ..target import SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet

ID = 'C24'
LEVEL = 'exploration'
TECHNIQUE = ('tracemalloc read-outs of the bytes a container holds through repeated cycles of growing, shrinking and '
             'reading; bounded by its length and compared between cycles of the same work')
QUICK_CASES = 560
RULE = ('a case makes its values beforehand, then, under tracemalloc, takes a container of a random class and load '
        'factor through several cycles of the same work (growing one by one or in bulk, shrinking by a random route, reads of '
        'every kind, copies dropped at once, failing calls, resets, clears); after each phase the bytes held must be '
        'within a constant per stored value (hash tables apart, whose growth is CPython\'s), a '
        'cycle may hold no more than the one before it did, and clear must leave next to nothing; '
        'distinct by class, load, sizes, routes')
ASSUMPTIONS = ['CPython list, set and dict growth; bounds are two to four times what the containers need',
               'the deprecated SortedDict.iloc, documented to cache a view inside the dict, is not used']
REQUIRED = ['oracle_checks', 'measured', 'cycles', 'cleared', 'read_rounds', 'list', 'keylist', 'set', 'dict', 'grown_by_add',
            'shrunk', 'failed_ops', 'copies', 'repeated']

CLASSES = {'list': (SortedList, SortedList, SmallList), 'keylist': (SortedKeyList, SortedKeyList, SmallKeyList),
           'set': (SortedSet, SubSet), 'dict': (SortedDict, SubDict)}


def neg(v):
    return NEG[v]


NEG = {}
KEYS = {'neg': neg, None: None}


def held(base):
    gc.collect()
    return tracemalloc.get_traced_memory()[0] - base


def slack(ctx):
    """A case being repeated under the step counter: the interpreter keeps data of its own for each function."""
    return 300_000 if ctx.stepping else 0


def table(kind, c):
    """Size of the hash table inside (its growth is CPython's affair), None if it is not to be seen."""
    if kind in ('list', 'keylist'):
        return 0
    if kind == 'dict':
        return dict.__sizeof__(c)
    inner = getattr(c, '_set', None)
    return sys.getsizeof(inner) if isinstance(inner, set) else None


def per_value(kind, load, keyed):
    """Bytes per value a container may hold, hash tables apart."""
    seg = 40 if load >= 50 else 40 + 1400 // load
    return 2 * seg if keyed else seg


def shrink(ctx, rng, kind, c, down, vals):
    """Remove until `down` are left, by one of the routes."""
    route = rng.choice(('pop', 'popfirst', 'popmid', 'remove', 'slice', 'slices', 'del') +
                       (('isub', 'iand') if kind == 'set' else ()))
    n = len(c)
    seq = c.keys() if kind == 'dict' else c
    pop = c.popitem if kind == 'dict' else c.pop
    ctx.n('shrunk')
    if route == 'slice':
        a = rng.randrange(down + 1)
        del seq[a:a + n - down]
    elif route == 'slices':
        while len(c) > down:
            k = min(len(c) - down, max(1, n // 9))
            a = rng.randrange(len(c) - k + 1)
            del seq[a:a + k]
    elif route == 'isub':
        c -= set(list(c)[:n - down])
    elif route == 'iand':
        c &= set(list(c)[n - down:])
    elif route == 'remove':
        for v in rng.sample(list(c), n - down):
            if kind == 'dict':
                del c[v]
            else:
                c.remove(v)
    else:
        for _ in range(n - down):
            if route == 'pop':
                pop(-1)
            elif route == 'popfirst':
                pop(0)
            elif route == 'popmid':
                pop(rng.randrange(len(c)))
            else:
                del seq[rng.randrange(len(c))]
    return route


def grow(ctx, kind, c, vals, how):
    if how == 'bulk':
        c.update(((v, None) for v in vals) if kind == 'dict' else vals)
    else:
        ctx.n('grown_by_add')
        if kind == 'dict':
            for v in vals:
                c[v] = None
        else:
            for v in vals:
                c.add(v)


def reads(ctx, kind, c, probe, absent, key):
    """One round of everything that only looks."""
    n = len(c)
    seq = c.keys() if kind == 'dict' else c
    for i in range(0, n, max(1, n // 5)):
        seq[i]
        seq[i - n]
        seq[i:i + 20]
    if n:
        seq[n // 2]
    for v in probe:
        v in c
        c.bisect_left(v)
        c.bisect_right(v)
        next(c.irange(v), None)
        next(c.irange(None, v, reverse=True), None)
        if kind != 'dict':
            c.count(v)
        work.outcome_of(lambda: c.index(v))
        if kind == 'dict':
            c.get(v)
            work.outcome_of(lambda: c[v])
    list(c.islice(n // 3, n // 3 + 9))
    it = iter(c)
    next(it, None)
    next(reversed(c), None)
    len(c)
    c == c
    c != [0]
    if n < 3000:
        repr(c)
    if kind == 'dict':
        for v in (c.keys(), c.values(), c.items()):
            len(v)
            next(iter(v), None)
            if n:
                v[0], v[-1]
        if n:
            c.peekitem(0)
    if kind == 'set':
        c.isdisjoint(absent)
        c & set(absent)
        c | set(absent)
        c - set(absent)
    ctx.n('copies')
    c.copy()
    bad = []
    for f in (lambda: seq[n], lambda: c.index(absent[0]), lambda: c.update(7),
              lambda: c.pop(absent[0]) if kind == 'dict' else c.remove(absent[0])):
        tag, _ = work.outcome_of(f)
        if tag == 'exc':
            bad.append(1)
    ctx.n('failed_ops', len(bad))


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    cls = rng.choice(CLASSES[kind])
    ctx.n(kind)
    key = neg if kind == 'keylist' or kind in ('set', 'dict') and rng.random() < 0.4 else None
    big = rng.random() < 0.3
    again = rng.random() < 0.6
    if again:
        big = False
    up = rng.randrange(3000, 12000) if big else rng.choice((0, 1, 40, 300) if again else (0, 1, 40, 300, 1200, 2500))
    load = rng.choice((4, 8, 50, None, None, None)) if not big else rng.choice((50, None, None))
    if big and cls in (SmallList, SmallKeyList):
        load = 50
    down = rng.choice((0, 1, up // 10, up // 3, up - min(up, 3)))
    how = rng.choice(('bulk', 'add'))
    # All objects the container will be given exist before tracing starts.
    NEG.clear()
    vals = [10**6 + i for i in range(up)]
    absent = [5, 6, 7]
    if kind in ('list', 'keylist') and up and rng.random() < 0.4:
        vals = [rng.choice(vals[:max(1, up // 4)]) for _ in range(up)]
    for v in vals + absent:
        NEG[v] = -v
    rng.shuffle(vals)
    probe = [rng.choice(vals) for _ in range(4)] + absent if vals else absent
    ctx.shape(kind, cls.__name__, key is not None, up, down, load, how)
    ctx.log('world', kind, cls.__name__, f'keyed={key is not None} up={up} down={down} load={load} {how}')
    warm_up(ctx)
    gc.collect()
    gc.disable()
    tracemalloc.start(1)
    try:
        if again:
            over_and_over(ctx, rng, kind, cls, key, load, vals, absent, probe)
            return
        phases(ctx, rng, kind, cls, key, load, vals, absent, probe, down, how)
    finally:
        tracemalloc.stop()
        gc.enable()
        NEG.clear()


# -- one operation over and over ---------------------------------------------------------


def swap(c, take, give):
    """A step that ends where it began."""
    def step():
        take(c)
        give(c)
    return step


def fails(f):
    def step():
        try:
            f()
        except Exception:
            pass
    return step


def repeatable(rng, kind, c, vals, absent, probe):
    """(name, step) of everything that leaves the container as it was."""
    n = len(c)
    seq = c.keys() if kind == 'dict' else c
    v = rng.choice(probe)
    a = absent[0]
    i = rng.randrange(n) if n else 0
    j = min(n, i + rng.choice((1, 5, 40)))
    out = [
        ('in', lambda: v in c), ('bisect_left', lambda: c.bisect_left(v)), ('bisect_right', lambda: c.bisect_right(v)),
        ('irange', lambda: next(c.irange(v), None)), ('irange reverse', lambda: next(c.irange(None, v, reverse=True), None)),
        ('islice', lambda: next(c.islice(i, j), None)), ('iter', lambda: next(iter(c), None)),
        ('reversed', lambda: next(reversed(c), None)), ('len', lambda: len(c)), ('slice', lambda: seq[i:j]),
        ('steps', lambda: seq[j:i:-2]), ('==', lambda: c == [1]), ('== own', lambda: c == c),
        ('copy', c.copy), ('repr', lambda: repr(c)), ('index', fails(lambda: c.index(v))),
        ('index of absent', fails(lambda: c.index(a))), ('position off the end', fails(lambda: seq[n])),
        ('deletion off the end', fails(lambda: seq.__delitem__(-n - 1))), ('bad update', fails(lambda: c.update(7))),
        ('reset', lambda: c._reset(9)), ('init', lambda: type(c)()),
        ('keyed bisect', fails(lambda: c.bisect_key(-v))), ('keyed range', fails(lambda: list(c.irange_key(-v, -v)))),
        ('dropped range', lambda: (c.irange(v), c.islice(i), iter(c), reversed(c))),
        ('reduce', c.__reduce__), ('update with nothing', lambda: c.update(())),
    ]
    if n:
        out += [('first', lambda: seq[0]), ('last', lambda: seq[-1]), ('position', lambda: seq[i]),
                ('position from the end', lambda: seq[i - n])]
    if kind == 'dict':
        out += [
            ('lookup', lambda: c.get(v)), ('setdefault', lambda: c.setdefault(vals[0], 1) if n else None),
            ('bad lookup', fails(lambda: c[a])), ('bad pop', fails(lambda: c.pop(a))), ('pop default', lambda: c.pop(a, None)),
            ('bad del', fails(lambda: c.__delitem__(a))), ('unhashable', fails(lambda: c.__setitem__([], 1))),
            ('peekitem', fails(lambda: c.peekitem(i))), ('views', lambda: (c.keys(), c.values(), c.items())),
            ('view reads', lambda: (v in c.keys(), len(c.items()), list(c.values()[i:j]))),
            ('view algebra', lambda: c.keys() & [v, a]), ('|', lambda: c | {a: 1}), ('ror', lambda: {a: 1} | c),
            ('set and delete', swap(c, lambda c: c.__setitem__(a, 1), lambda c: c.__delitem__(a))),
            ('set and pop', swap(c, lambda c: c.__setitem__(a, 1), lambda c: c.pop(a))),
            ('update and delete', swap(c, lambda c: c.update({a: 1, absent[1]: 2}), lambda c: (c.pop(a), c.pop(absent[1])))),
            ('ior and delete', swap(c, lambda c: c.__ior__({a: 1}), lambda c: c.__delitem__(a))),
            ('clear and refill', lambda m=dict(c): (c.clear(), c.update(m))), ('fromkeys', lambda: type(c).fromkeys(absent)),
        ]
        if n:
            out += [('overwrite', lambda: c.__setitem__(vals[0], None)),
                    ('popitem and set', lambda: c.__setitem__(*c.popitem(i))),
                    ('view deletion', lambda: (lambda k: (c.keys().__delitem__(i), c.__setitem__(k, None)))(c.keys()[i])),
                    ('view slice deletion', lambda: (lambda ks: (c.keys().__delitem__(slice(i, j)),
                                                                 c.update(dict.fromkeys(ks))))(c.keys()[i:j]))]
        return out
    out += [
        ('count', lambda: c.count(v)), ('discard absent', lambda: c.discard(a)), ('bad remove', fails(lambda: c.remove(a))),
        ('add and remove', swap(c, lambda c: c.add(a), lambda c: c.remove(a))),
        ('add and discard', swap(c, lambda c: c.add(a), lambda c: c.discard(a))),
        ('add and pop', swap(c, lambda c: c.add(a), lambda c: c.pop(c.index(a)))),
        ('update and remove', swap(c, lambda c: c.update(absent), lambda c: [c.remove(x) for x in absent])),
        ('clear and refill', lambda m=list(c): (c.clear(), c.update(m))),
    ]
    if n:
        out += [('incomparable', fails(lambda: c.add(None))), ('pop and add', lambda: c.add(c.pop(i))), ('pop last and add', lambda: c.add(c.pop())),
                ('slice deletion', lambda: (lambda vs: (c.__delitem__(slice(i, j)), c.update(vs)))(c[i:j]))]
    if kind == 'set':
        other = set(absent) | {v}
        out += [('|', lambda: c | other), ('&', lambda: c & other), ('-', lambda: c - other), ('^', lambda: c ^ other),
                ('rsub', lambda: other - c), ('isdisjoint', lambda: c.isdisjoint(absent)), ('<=', lambda: c <= other),
                ('ixor twice', swap(c, lambda c: c.__ixor__(absent), lambda c: c.__ixor__(absent))),
                ('ior and isub', swap(c, lambda c: c.__ior__(absent), lambda c: c.__isub__(absent))),
                ('iand itself', lambda: c.__iand__(c)), ('unhashable', fails(lambda: c.add([])))]
    else:
        out += [('+', lambda: c + [v]), ('*', lambda: c * 2), ('<', lambda: c < [v]),
                ('refused', fails(lambda: c.append(v))), ('refused too', fails(lambda: c.__setitem__(0, v)))]
    return out


def over_and_over(ctx, rng, kind, cls, key, load, vals, absent, probe):
    c = cls(key) if kind == 'dict' else cls(key=key)
    if load:
        c._reset(load)
    grow(ctx, kind, c, vals, 'bulk')
    steps = repeatable(rng, kind, c, vals, absent, probe)
    n = len(c)
    times = 1500 if n < 120 else 900
    for name, step in rng.sample(steps, 10):
        ctx.log('over and over', name, n)
        ctx.shape(name)
        for _ in range(60):
            step()
        before, t0 = held(0), table(kind, c)
        for _ in range(times):
            step()
        after, t1 = held(0), table(kind, c)
        ctx.n('repeated', times)
        grew = after - before - ((t1 - t0) if t0 is not None else 0)
        ctx.check(grew <= 4 * times + 2500 + slack(ctx) + (16 * n if t0 is None else 0),
                  f'{kind} of {n}: {grew} bytes more held after {name!r} {times} times')
        ctx.check(len(c) == n, f'{name} should leave the container as it was', len(c), n)
        ctx.n('op_over_' + name.replace(' ', '_'), 1)


WARM = False


def warm_up(ctx):
    """Once in a process, untraced: lazy imports and caches of the interpreter must not count."""
    global WARM
    if WARM:
        return
    WARM = True
    for s in range(24):
        other = Ctx(ctx.prop, ctx.seed, -1 - s, ctx.tier)
        kind = ('list', 'keylist', 'set', 'dict')[s % 4]
        old = dict(NEG)
        vals = list(range(100, 130))
        for v in vals:
            NEG[v] = -v
        NEG.update({5: -5, 6: -6, 7: -7})
        phases(other, other.rng, kind, CLASSES[kind][s % 2], neg if s % 4 == 1 or s % 3 == 0 and s % 4 > 1 else None, 4, vals, [5, 6, 7],
               vals[:3] + [5], 3, 'add')
        NEG.clear()
        NEG.update(old)


def phases(ctx, rng, kind, cls, key, load, vals, absent, probe, down, how):
    r2 = type(rng)(0)
    base = held(0)
    if kind == 'dict':
        c = cls(key) if key else cls()
    else:
        c = cls(key=key) if key else cls()
    if load:
        c._reset(load)
    eff = load or {SmallList: 4, SmallKeyList: 5}.get(cls, 1000)
    each = per_value(kind, eff, key is not None)
    peak = 0
    room = 24_000

    def measure(what):
        """Bytes held apart from the hash table."""
        nonlocal peak
        b = held(base)
        n = len(c)
        peak = max(peak, n)
        t = table(kind, c)
        ctx.n('measured')
        if t is None:
            t = min(b, 160 * peak)
        ctx.check(t <= 200 * peak + 1000, f'{what}: a hash table of {t} bytes, at most {peak} values so far')
        b -= t
        ctx.check(b <= each * n + room + slack(ctx), f'{what}: {b} bytes held for {n} values, over {each} a value + {room}')
        return b

    measure('empty')
    seed = rng.random()
    last = None
    for cycle in range(4):
        ctx.n('cycles')
        r2.seed(seed)  # the same work in every cycle
        ctx.log('cycle', cycle)
        totals = []
        grow(ctx, kind, c, vals, how)
        peak = max(peak, len(c))
        totals.append(measure('grown'))
        for _ in range(2):
            ctx.n('read_rounds')
            reads(ctx, kind, c, probe, absent, key)
        totals.append(measure('read'))
        for _ in range(6):
            reads(ctx, kind, c, probe, absent, key)
            ctx.n('read_rounds')
        b = measure('read again')
        ctx.check(b <= totals[-1] + 3000 + slack(ctx), f'reading again and again holds {b - totals[-1]} bytes more')
        route = shrink(ctx, r2, kind, c, min(down, len(c)), vals)
        ctx.log('shrink', route)
        totals.append(measure(f'shrunk by {route}'))
        how2 = r2.choice(('clear', 'slice', 'reset', 'pops'))
        if how2 == 'reset':
            c._reset(eff)
            measure('reset')
        if how2 == 'slice':
            del (c.keys() if kind == 'dict' else c)[:]
        elif how2 == 'pops':
            while c:
                (c.popitem if kind == 'dict' else c.pop)()
        else:
            c.clear()
            ctx.n('cleared')
            b = measure('cleared')
            ctx.check(b <= 12_000 + slack(ctx), f'{b} bytes held after clear() of {peak} values')
        totals.append(measure('emptied'))
        if last is not None and cycle >= 2:
            for a, b, what in zip(last, totals, ('grown', 'read', 'shrunk', 'emptied')):
                ctx.check(b <= a * 1.1 + 4000 + slack(ctx), f'{what}: the same work holds {b} bytes, in the cycle before {a}')
        last = totals
