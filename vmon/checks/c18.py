"""C18: _check() passes in every reached state and raises AssertionError on every injected corruption."""

import contextlib
import io

from .. import ops, work
from ..anyobj import SubKeyList, SubList, contents, identical
from ..dictwork import Val
from ..target import (
    MidList, SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet,
)
from ..values import any_dom, keyed_dom, plain_dom, roomy

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = ('the self-check called in every state of random histories (acceptance, silence, no effect) and after '
             'injected corruptions of values, structures and bookkeeping (rejection)')
QUICK_CASES = 8000
RULE = ('a case is a random history of public operations (failing ones included) with the self-check called after '
        'each, its output captured and contents compared; or a container built through a random history and then '
        'corrupted in one way chosen from those that apply, each known to break the documented structure, where the '
        'check must raise AssertionError; distinct by class, domain, size, load factor and corruption')
ASSUMPTIONS = ['values also support <=, which the self-check of the list uses (all built-in ordered types do)',
               'corruptions of internal attributes are tried where those attributes exist under their present names']
REQUIRED = ['oracle_checks', 'accepted', 'rejected', 'list', 'keylist', 'set', 'dict', 'mutated', 'one_sided_dict',
            'with_index', 'empty_accepted']


class Mut:
    """Ordered, hashable, and changeable behind the container's back."""

    __slots__ = ('rank', 'h')

    def __init__(self, rank, h=None):
        self.rank = rank
        self.h = rank if h is None else h

    def __lt__(self, o):
        return self.rank < o.rank

    def __le__(self, o):
        return self.rank <= o.rank

    def __gt__(self, o):
        return self.rank > o.rank

    def __ge__(self, o):
        return self.rank >= o.rank

    def __eq__(self, o):
        return isinstance(o, Mut) and self.rank == o.rank

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return f'Mut({self.rank})'


def k_neg(v):
    return -v.rank


def k_rank(v):
    return v.rank


def k_half(v):
    return v.rank // 2


def quiet(f):
    """Outcome of f and what it printed."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            r = ('ok', f())
        except Exception as e:
            r = ('exc', e)
    return r, out.getvalue()


def accept(ctx, kind, c, what):
    was = contents(kind, c)
    (tag, v), printed = quiet(c._check)
    ctx.n('accepted')
    if not was:
        ctx.n('empty_accepted')
    if tag == 'exc':
        ctx.fail(f'_check raised {type(v).__name__}: {v} {what}')
    ctx.check(v is None, f'_check returned something {what}', v)
    ctx.check(printed == '', f'_check printed {what}', printed)
    ctx.check(identical(kind, was, contents(kind, c)), f'_check changed the contents {what}')


def nolt(dom):
    return 'lt' not in dom.name


def pick_dom(rng, kind, n=0):
    while True:
        if kind == 'keylist':
            dom = keyed_dom(rng)
        elif kind == 'list':
            dom = plain_dom(rng, noltonly=True)
        else:
            dom = roomy(rng, n, lambda: any_dom(rng, hashable=True))
        if nolt(dom):
            return dom


CLASSES = {'list': (SortedList, SortedList, SmallList, MidList, SubList),
           'keylist': (SortedKeyList, SortedKeyList, SmallKeyList, SubKeyList),
           'set': (SortedSet, SubSet), 'dict': (SortedDict, SubDict)}


def blank(kind, cls, key):
    if kind == 'list':
        return cls()
    return cls(key) if kind == 'dict' else cls(key=key)


def acceptance(ctx, rng):
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    ctx.n(kind)
    cls = rng.choice(CLASSES[kind])
    prof = work.profile(rng, 0.8)
    dom = pick_dom(rng, kind, prof.n)
    c = blank(kind, cls, dom.key)
    accept(ctx, kind, c, 'on an empty container')
    if prof.load:
        c._reset(prof.load)
    vals = dom.some(rng, prof.n)
    c.update([(v, Val(i)) for i, v in enumerate(vals)] if kind == 'dict' else vals)
    names, w = work.weights(rng, ops.names_for(kind, dom) + ('reset',))
    ctx.shape('accept', cls.__name__, dom.name, prof.n, prof.load, tuple(names))
    ctx.log('world', cls.__name__, repr(dom), f'n={prof.n} load={prof.load}', vals)
    accept(ctx, kind, c, 'after building')
    every = 1 if prof.n < 500 else 4
    for i in range(prof.ops):
        name = rng.choices(names, w)[0]
        if name == 'reset':
            load = rng.choice((4, 5, 6, 7, 9, 50, 1000))
            ctx.log(f'_reset({load})')
            c._reset(load)
        else:
            op = ops.gen(rng, kind, dom, c, list(c), name)
            ctx.log(*op)
            c, out = ops.apply(kind, c, op)
        if i % every == 0:
            accept(ctx, kind, c, f'after {name}')
    accept(ctx, kind, c.copy(), 'on a copy')


# -- corruption -----------------------------------------------------------------------


def inner(c):
    """The object with the list bookkeeping."""
    return c if hasattr(c, '_lists') else getattr(c, '_list', None)


def corruptions(rng, kind, c, key):
    """(name, function) for each way that applies; the function corrupts c."""
    out = []
    vals = list(c)
    n = len(vals)
    seq = vals

    # 1. a stored value changed so that the order breaks
    if n >= 2:
        i1 = rng.randrange(n)

        def mutate():
            lo = min(v.rank for v in seq)
            hi = max(v.rank for v in seq)
            old = seq[i1].rank
            for r in rng.sample((lo - 10, hi + 10), 2):
                seq[i1].rank = r
                k = key(seq[i1]) if key is not None else seq[i1]
                left = key(seq[i1 - 1]) if key is not None and i1 else seq[i1 - 1]
                right = (key(seq[i1 + 1]) if key is not None else seq[i1 + 1]) if i1 + 1 < n else None
                if (i1 and k < left) or (i1 + 1 < n and right < k):
                    return
            seq[i1].rank = old
            raise AssertionError('no such change')
        out.append(('mutated', mutate))

    # 2. only one of the two structures of a dict or set
    fresh = Mut(10**6 + rng.randrange(1000))
    if kind == 'dict':
        out.append(('one_sided_dict', lambda: dict.__setitem__(c, fresh, 1)))
        out.append(('one_sided_dict', lambda: dict.update(c, {fresh: 1, Mut(-10**6): 2})))
        out.append(('one_sided_dict', lambda: dict.setdefault(c, fresh, 1)))
        if n:
            k = rng.choice(vals)

            def swap():
                dict.__delitem__(c, k)
                dict.__setitem__(c, fresh, 1)
            out.append(('one_sided_dict', lambda: dict.__delitem__(c, k)))
            out.append(('one_sided_dict', lambda: dict.pop(c, k)))
            out.append(('one_sided_dict', lambda: dict.popitem(c)))
            out.append(('one_sided_dict', lambda: dict.clear(c)))
            out.append(('one_sided_dict_swap', swap))
    if kind == 'set' and isinstance(getattr(c, '_set', None), set):
        out.append(('one_sided_set', lambda: c._set.add(fresh)))
        if n:
            k = rng.choice(vals)

            def swap():
                c._set.discard(k)
                c._set.add(fresh)
            out.append(('one_sided_set', lambda: c._set.discard(k)))
            out.append(('one_sided_set', lambda: c._set.clear()))
            out.append(('one_sided_set_swap', swap))
    if kind in ('set', 'dict') and isinstance(getattr(c, '_list', None), SortedList):
        out.append(('one_sided_list', lambda: c._list.add(fresh)))
        if n:
            j2 = rng.randrange(n)

            def lswap():
                del c._list[j2]
                c._list.add(fresh)

            out.append(('one_sided_list', lambda: c._list.__delitem__(j2)))
            out.append(('one_sided_list', lambda: c._list.add(vals[j2])))
            out.append(('one_sided_list', lambda: c._list.clear()))
            out.append(('one_sided_list_swap', lswap))
            if n >= 2:
                def dswap():
                    c._list.add(vals[j2 - 1])
                    c._list.remove(vals[j2])
                out.append(('one_sided_list_dup', dswap))

    # 3. bookkeeping
    b = inner(c)
    d = getattr(b, '__dict__', {})
    ls = d.get('_lists')

    def put(name, v):
        return lambda: setattr(b, name, v)

    if isinstance(d.get('_len'), int):
        out.append(('len', put('_len', b._len + rng.choice((1, -1, 7)))))
    if isinstance(d.get('_load'), int):
        out.append(('load', put('_load', rng.choice((0, 1, 3, -5)))))
        if ls and max(map(len, ls)) > 8:
            # segments longer than twice the load factor
            out.append(('load', put('_load', (max(map(len, ls)) - 1) // 2)))
        if ls and len(ls) > 1:
            out.append(('load', put('_load', 2 * min(map(len, ls[:-1])) + 2)))
    m = d.get('_maxes')
    if isinstance(m, list):
        out.append(('maxes', lambda: m.append(m[-1] if m else fresh)))
        if m:
            j3 = rng.randrange(len(m))
            wrong = -10**7 if isinstance(m[j3], int) else Mut(-10**7)
            out.append(('maxes', lambda: m.pop(j3)))
            out.append(('maxes', lambda: m.__setitem__(j3, wrong)))
            if len(m) > 1 and m[j3] != m[j3 - 1]:
                out.append(('maxes', lambda: m.__setitem__(j3, m[j3 - 1])))
    if isinstance(ls, list) and ls:
        j4 = rng.randrange(len(ls))
        sub = ls[j4]
        out.append(('lists', lambda: sub.append(sub[-1])))
        out.append(('lists', lambda: ls.append([Mut(10**7)])))
        out.append(('lists', lambda: ls.pop(j4)))
        if len(sub) > 1:
            i4 = rng.randrange(len(sub))
            out.append(('lists', lambda: sub.pop(i4)))
            if sub[i4] != sub[i4 - 1] and (key is None or key(sub[i4]) != key(sub[i4 - 1])):
                def sw():
                    sub[i4], sub[i4 - 1] = sub[i4 - 1], sub[i4]
                out.append(('lists_order', sw))
        if len(ls) > 1 and j4 and (ls[j4][0] != ls[j4 - 1][0]) and (key is None or key(ls[j4][0]) != key(ls[j4 - 1][0])):
            def sws():
                ls[j4][0], ls[j4 - 1][0] = ls[j4 - 1][0], ls[j4][0]
            out.append(('lists_order', sws))

            def swl():
                ls[j4], ls[j4 - 1] = ls[j4 - 1], ls[j4]
            out.append(('lists_order', swl))
    ks = d.get('_keys')
    if key is not None and isinstance(ks, list) and ks and all(isinstance(x, list) for x in ks):
        j5 = rng.randrange(len(ks))
        i5 = rng.randrange(len(ks[j5]))
        out.append(('keys', lambda: ks[j5].__setitem__(i5, ks[j5][i5] + rng.choice((1, -1, 3)))))
        out.append(('keys', lambda: ks[j5].append(ks[j5][-1])))
        out.append(('keys', lambda: ks.append([10**7])))
        out.append(('keys', lambda: ks.pop(j5)))
        if len(ks[j5]) > 1:
            out.append(('keys', lambda: ks[j5].pop(i5)))
        # all keys shifted alike: only the key function can tell

        def shift():
            for x in ks:
                x[:] = [k + 1 for k in x]
            b._maxes[:] = [k + 1 for k in b._maxes]
        if isinstance(m, list):
            out.append(('keys', shift))
    ix = d.get('_index')
    if isinstance(ix, list) and ix:
        j6 = rng.randrange(len(ix))
        out.append(('index', lambda: ix.__setitem__(j6, ix[j6] + rng.choice((1, -1, 5)))))
        out.append(('index', lambda: ix.append(0)))
        out.append(('index', lambda: ix.pop()))
        if len(ix) > 3:
            a = rng.randrange(len(ix))
            if ix[a] != ix[a - 1]:
                def swi():
                    ix[a], ix[a - 1] = ix[a - 1], ix[a]
                out.append(('index', swi))

            def parents():
                # a leaf and its ancestors off by one, the sums intact
                p = len(ix) - 1
                while True:
                    ix[p] += 1
                    if not p:
                        return
                    p = (p - 1) >> 1
            out.append(('index', parents))
        if isinstance(d.get('_offset'), int):
            out.append(('index', put('_offset', b._offset + rng.choice((1, -1, 2)))))
    return out


def corrupt_key(rng, kind):
    return None if kind == 'list' or (kind != 'keylist' and rng.random() < 0.5) else rng.choice((k_neg, k_rank, k_half))


def build(rng, kind, n, load, span, key, seed):
    """The same container for the same seed."""
    r = type(rng)(seed)
    cls = r.choice(CLASSES[kind])
    c = blank(kind, cls, key)
    c._reset(load)
    vals = [Mut(r.randrange(span)) for _ in range(n)]
    if kind == 'dict':
        c.update((v, i) for i, v in enumerate(vals))
    else:
        c.update(vals)
    for _ in range(r.randrange(10)):
        if len(c) and r.random() < 0.5:
            (c.popitem if kind == 'dict' else c.pop)(r.randrange(len(c)))
        else:
            v = Mut(r.randrange(span))
            if kind == 'dict':
                c[v] = 0
            else:
                c.add(v)
    if len(c) and r.random() < 0.7:
        (c.peekitem if kind == 'dict' else c.__getitem__)(r.randrange(len(c)))
    return c


def rejection(ctx, rng):
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    ctx.n(kind)
    key = corrupt_key(rng, kind)
    n = rng.choice((0, 1, 2, 5, 20, 60, 200))
    if rng.random() < 0.015:
        n = rng.choice((900, 2600))
        ctx.n('big')
    load = rng.choice((4, 4, 5, 8, 30))
    span = rng.choice((3, 50, 1000))
    seed = rng.randrange(10**9)
    ctx.log('corruption', kind, getattr(key, '__name__', 'no key'), f'n={n} load={load} span={span} seed={seed}')
    # every corruption on a container of its own
    j = 0
    while True:
        c = build(rng, kind, n, load, span, key, seed)
        sub = type(rng)(seed + 1)
        ways = corruptions(sub, kind, c, key)
        if j >= len(ways):
            break
        name, f = ways[j]
        j += 1
        accept(ctx, kind, c, 'before the corruption')
        if getattr(inner(c), '_index', None):
            ctx.n('with_index')
        try:
            f()
        except AssertionError:
            ctx.n('not_applicable')
            continue
        (tag, v), _ = quiet(c._check)
        ctx.n('rejected')
        ctx.n(name)
        ctx.shape('reject', kind, getattr(key, '__name__', None), n, load, span, name)
        ctx.check(tag == 'exc', f'_check passed a corrupted {type(c).__name__} (n={n}, load={load}, '
                                f'corruption {name} number {j})', vars(inner(c)) if inner(c) is not None else None)
        ctx.check(isinstance(v, AssertionError), f'_check raised {type(v).__name__} ({v}), not AssertionError, on '
                                                 f'a corrupted {type(c).__name__} (corruption {name} number {j})')


def case(ctx):
    if ctx.case % 2:
        rejection(ctx, ctx.rng)
    else:
        acceptance(ctx, ctx.rng)
