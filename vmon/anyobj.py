"""Any of the container classes, with some history, and generic changes to them."""

from . import work
from .dictwork import Val
from .target import (
    MidList, SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet,
)
from .values import Arg, any_dom, keyed_dom, plain_dom, roomy

KINDS = {'list': (SortedList, SmallList, MidList), 'keylist': (SortedKeyList, SmallKeyList),
         'set': (SortedSet, SubSet), 'dict': (SortedDict, SubDict)}


class SubList(SortedList):
    def extra(self):
        return 'extra'


class SubKeyList(SortedKeyList):
    pass


def pick_world(rng, kind=None, evaluable=False, mutable_values=True, n=0, **kw):
    """(kind, class, domain)"""
    kind = kind or rng.choice(('list', 'keylist', 'set', 'dict'))
    if kind == 'keylist':
        dom = keyed_dom(rng, **kw)
    elif kind == 'list':
        dom = plain_dom(rng, evaluable=evaluable)
    else:
        dom = roomy(rng, n, lambda: plain_dom(rng, hashable=True, evaluable=evaluable)
                    if evaluable or rng.random() < 0.5 else keyed_dom(rng, hashable=True, **kw))
    cls = rng.choice(KINDS[kind] + (SubList,) * (kind == 'list') + (SubKeyList,) * (kind == 'keylist'))
    return kind, cls, dom


def construct(rng, kind, cls, dom, vals):
    """An instance built by the constructor, from an iterable of any kind."""
    if kind == 'dict':
        pairs = [(v, Val(i)) for i, v in enumerate(vals)]
        src = dict(pairs) if rng.random() < 0.3 else Arg(rng.choice(Arg.KINDS), pairs).make()
        return cls(dom.key, src) if dom.key is not None or rng.random() < 0.5 else cls(src)
    src = Arg(rng.choice(Arg.HASH_KINDS if kind == 'set' else Arg.KINDS), vals).make()
    return cls(src, key=dom.key) if kind == 'keylist' or dom.key is not None else cls(src)


def make(rng, kind, cls, dom, load, vals, history=True):
    """An instance holding (some of) vals after a small history."""
    key = dom.key
    if rng.random() < 0.3:
        c = construct(rng, kind, cls, dom, vals)
        vals = ()
    elif kind == 'list':
        c = cls()
    elif kind == 'keylist':
        c = cls(key=key)
    elif kind == 'set':
        c = cls(key=key) if key is not None or rng.random() < 0.5 else cls()
    else:
        c = cls(key) if key is not None or rng.random() < 0.5 else cls()
    if load:
        c._reset(load)
    if not vals:
        pass
    elif kind == 'dict':
        c.update((v, Val(i)) for i, v in enumerate(vals))
    else:
        c.update(vals)
    if history:
        for _ in range(rng.randrange(0, 12)):
            change(rng, kind, c, dom)
    return c


def change(rng, kind, c, dom):
    """One random valid change (no result)."""
    n = len(c)
    k = rng.randrange(11)
    if k < 3 or not n:
        v = dom.gen(rng)
        if kind == 'dict':
            c[v] = Val(rng.randrange(1000))
        else:
            c.add(v)
    elif k == 3:
        i = rng.randrange(-n, n)
        (c.popitem if kind == 'dict' else c.pop)(i)
    elif k == 4:
        v = list(c)[rng.randrange(n)]
        if kind == 'dict':
            del c[v]
        else:
            c.remove(v)
    elif k == 5:
        vs = dom.some(rng, work.pick_bulk_size(rng, n))
        c.update([(v, Val(rng.randrange(1000))) for v in vs] if kind == 'dict' else vs)
    elif k == 6:
        a = rng.randrange(n)
        s = slice(a, a + rng.randrange(4))
        if kind == 'dict':
            del c.keys()[s]
        else:
            del c[s]
    elif k > 8:
        vs = dom.some(rng, rng.choice((0, 1, 3, n // 4)))
        some = list(c)
        if kind == 'dict':
            if rng.random() < 0.5:
                c.__ior__({v: Val(rng.randrange(1000)) for v in vs})
            elif rng.random() < 0.5:
                c.pop(rng.choice(some))
            else:
                c.setdefault(dom.gen(rng), Val(rng.randrange(1000)))
        elif kind == 'set':
            name = rng.choice(('__iand__', '__isub__', '__ixor__', '__ior__', 'intersection_update', 'difference_update',
                               'symmetric_difference_update', 'discard'))
            if name == 'discard':
                c.discard(rng.choice(some))
            elif name in ('__iand__', 'intersection_update'):
                a = rng.randrange(n)
                getattr(c, name)(set(some[:a] + some[a + rng.choice((0, 1, 3)):] + vs))
            else:
                vs += [rng.choice(some)] * rng.randrange(2)
                getattr(c, name)(set(vs))
        else:
            name = rng.choice(('__iadd__', 'discard', 'discard', '__imul__'))
            if name == '__imul__':
                if n < 60:
                    c.__imul__(rng.choice((1, 1, 2)))
            elif name == 'discard':
                c.discard(rng.choice(some))
            else:
                c.__iadd__(vs)
    elif k == 7:
        # a positional read, which builds the index
        (c.peekitem if kind == 'dict' else c.__getitem__)(rng.randrange(n))
        c.bisect_left(list(c)[rng.randrange(n)])
    else:
        if rng.random() < 0.15:
            c.clear()
        else:
            c._reset(rng.choice((4, 5, 9, 1000)))


def contents(kind, c):
    """What it holds, as an ordered list of objects (pairs for dicts)."""
    if kind == 'dict':
        return [(k, dict.__getitem__(c, k)) for k in list(c)]
    return list(c)


def identical(kind, a, b):
    if len(a) != len(b):
        return False
    if kind == 'dict':
        return all(x[0] is y[0] and x[1] is y[1] for x, y in zip(a, b))
    return all(x is y for x, y in zip(a, b))


def sane(ctx, kind, c, dom, what):
    """The container agrees with itself through every access path."""
    ref = list(c)
    n = len(ref)
    keys = work.keys_of(ref, dom.key)
    ctx.check(work.is_ascending(keys), f'{what}: order', ref)
    ctx.check(len(c) == n, f'{what}: len', len(c), n)
    ctx.same_seq(list(reversed(c)), ref[::-1], f'{what}: reversed')
    seq = c.keys() if kind == 'dict' else c
    step = max(1, n // 40)
    for i in range(0, n, step):
        v = ref[i]
        ctx.check(seq[i] is v and seq[i - n] is v, f'{what}: position {i}')
        ctx.check(v in c, f'{what}: iterated but not found', v)
        ctx.check(c.bisect_left(v) == work.bisect_ref(keys, keys[i], False) and
                  c.bisect_right(v) == work.bisect_ref(keys, keys[i], True), f'{what}: ranks', v)
        ctx.check(c.index(v) == ref.index(v), f'{what}: index', v)
    ctx.same_seq(list(c.irange()), ref, f'{what}: irange')
    if kind == 'set':
        ctx.check(len(set(ref)) == n and c == set(ref) and c.issubset(ref), f'{what}: members', ref)
    if kind == 'dict':
        ctx.check(len(dict.keys(c)) == n and all(k in dict.keys(c) for k in ref), f'{what}: dict side', ref)
        ctx.check(list(c.values()) == [c[k] for k in ref], f'{what}: values')
    return ref


ANY = any_dom
