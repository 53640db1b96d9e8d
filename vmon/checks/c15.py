"""C15: comparisons, key calls, interpreter steps and allocations counted per operation; segment sizes watched."""

import gc
import operator
import os
import sys
import tracemalloc
from math import log2

from .. import work
from ..target import (
    MidList, PKG_DIR, SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet,
)
from ..values import any_dom

ID = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('comparison, key-call, interpreter-step and allocation counters around every operation, bounds in the '
             'container size; segment sizes watched over histories')
QUICK_CASES = 1200
COVERAGE = False
RULE = ('a case is one of: single operations and bulk updates on containers of 500 to 60000 counting values, each '
        'held to a bound on comparisons (logarithmic), key calls (constant) and ordering comparisons of hash '
        'look-ups (none); positional reads between additions and removals that split nothing, held to bounds on '
        'comparisons (none), interpreter steps and peak allocation; a growing and shrinking history with every '
        'segment size checked; distinct by kind, class, size, load factor and operation mix')
ASSUMPTIONS = ['bounds: 4*log2(n+2)+24 comparisons per single operation (plus 3 per value of equal key), at most 4 '
               'key calls, 18*(k+1)*log2(n+k+2)+64 comparisons per bulk update of k values',
               'a traversal of values (not of segments) made wholly inside C code without allocating or comparing would not '
               'be seen',
               'segments are observed through _lists and _load, or _check where these do not exist']
REQUIRED = ['oracle_checks', 'single_ops', 'bulk_ops', 'hash_ops', 'read_ops', 'alloc_ops', 'segment_checks', 'splits',
            'merges', 'subclass_loads', 'keyed_ops', 'index_kept', 'view_reads', 'iterations_started']
LT = 0
EQ = 1
KEY = 2
TOUCH = 3
COUNT = [0, 0, 0, 0]


class Cnt:
    """A value that counts how often it is compared."""

    __slots__ = ('rank',)

    def __init__(self, rank):
        self.rank = rank

    def __lt__(self, o):
        COUNT[0] += 1
        return self.rank < o.rank

    def __gt__(self, o):
        COUNT[0] += 1
        return self.rank > o.rank

    def __le__(self, o):
        COUNT[0] += 1
        return self.rank <= o.rank

    def __ge__(self, o):
        COUNT[0] += 1
        return self.rank >= o.rank

    def __eq__(self, o):
        COUNT[1] += 1
        return isinstance(o, Cnt) and self.rank == o.rank

    def __ne__(self, o):
        COUNT[1] += 1
        return not isinstance(o, Cnt) or self.rank != o.rank

    def __hash__(self):
        return hash(self.rank)

    def __repr__(self):
        return f'Cnt({self.rank})'


def k_cnt(v):
    COUNT[2] += 1
    return Cnt(-v.rank)


def k_mod(v):
    COUNT[2] += 1
    return Cnt(v.rank // 4)


def measured(f):
    COUNT[:] = (0, 0, 0, 0)
    r = f()
    return r, tuple(COUNT)


def lg(n):
    return log2(n + 2)


def single_bound(n, run):
    return 4 * lg(n) + 24 + 3 * run


def fill(rng, kind, key, load, n):
    ranks = [rng.randrange(4 * n) for _ in range(n)]
    vals = [Cnt(r) for r in ranks]
    c = {'list': lambda: SortedList(), 'keylist': lambda: SortedKeyList(key=key), 'set': lambda: SortedSet(key=key),
         'dict': lambda: SortedDict(key)}[kind]()
    if load:
        c._reset(load)
    c.update(((v, 1) for v in vals) if kind == 'dict' else vals)
    return c


def counting(ctx, rng):
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    key = rng.choice((None, k_cnt, k_mod)) if kind != 'list' else None
    if kind == 'keylist':
        key = key or k_cnt
    load = rng.choice((None, None, 4, 9, 50))
    n = rng.choice((500, 2000, 8000) if load == 4 else (500, 2000, 8000, 20000))
    if ctx.tier == 'thorough' and rng.random() < 0.1:
        n = 60000
    c = fill(rng, kind, key, load, n)
    ctx.log('counting', kind, getattr(key, '__name__', 'None'), str(load), str(n))
    ctx.shape('counting', kind, getattr(key, '__name__', None), load, n)
    span = 4 * n

    def check(name, cost, n, run, keys=4):
        ctx.n('single_ops')
        if key is not None:
            ctx.n('keyed_ops')
        ctx.check(cost[LT] + cost[EQ] <= single_bound(n, run),
                  f'{kind} {name} at n={n}, load={load}: comparisons / bound', cost[LT] + cost[EQ], single_bound(n, run))
        ctx.check(cost[KEY] <= keys, f'{kind} {name}: key calls', cost[KEY])

    for _ in range(60):
        n = len(c)
        stored = rng.random() < 0.7
        v = rng.choice(c.keys() if kind == 'dict' else c) if stored else Cnt(rng.randrange(-5, span + 5))
        if stored and rng.random() < 0.6:
            v = Cnt(v.rank)
        run = 0
        if key is not None:
            run = c.bisect_right(v) - c.bisect_left(v)
        names = ['bisect_left', 'bisect_right', 'index', 'irange', 'len']
        if kind in ('list', 'keylist'):
            names += ['add', 'add', 'remove', 'discard', 'contains', 'count', 'pop', 'del', 'getitem']
        elif kind == 'set':
            names += ['add', 'add', 'remove', 'discard', 'pop', 'del', 'getitem']
        else:
            names += ['set', 'set', 'delkey', 'popkey', 'setdefault', 'popitem', 'peekitem']
        name = rng.choice(names)
        i = rng.randrange(-n, n) if n else 0
        ops = {
            'bisect_left': lambda: c.bisect_left(v), 'bisect_right': lambda: c.bisect_right(v),
            'index': lambda: c.index(v), 'irange': lambda: next(c.irange(v), None), 'len': lambda: len(c),
            'add': lambda: c.add(v), 'remove': lambda: c.remove(v), 'discard': lambda: c.discard(v),
            'contains': lambda: v in c, 'count': lambda: c.count(v), 'pop': lambda: c.pop(i),
            'del': lambda: c.__delitem__(i), 'getitem': lambda: c[i],
            'set': lambda: c.__setitem__(v, 2), 'delkey': lambda: c.__delitem__(v), 'popkey': lambda: c.pop(v, None),
            'setdefault': lambda: c.setdefault(v, 3), 'popitem': lambda: c.popitem(i), 'peekitem': lambda: c.peekitem(i),
        }
        if not n and name in ('pop', 'del', 'getitem', 'popitem', 'peekitem'):
            continue
        if kind == 'list' and name in ('index', 'remove', 'count', 'discard', 'contains'):
            run = 0
        _, cost = measured(lambda: work.outcome_of(ops[name]))
        check(name, cost, n, run)
        if name in ('pop', 'del', 'getitem', 'peekitem', 'len') and kind in ('list', 'keylist'):
            ctx.check(sum(cost) == 0, f'{kind} {name}({i}): comparisons or key calls on positional access', cost)
        if name in ('len', 'peekitem', 'getitem'):
            ctx.check(cost[LT] == 0, f'{kind} {name}({i}): ordering comparisons on positional access', cost)
    # look-ups by hash order nothing
    if kind in ('set', 'dict') and len(c):
        for _ in range(30):
            v = rng.choice(c.keys() if kind == 'dict' else c) if rng.random() < 0.6 else Cnt(rng.randrange(span))
            w = Cnt(v.rank)
            fs = [('in', lambda: w in c)]
            if kind == 'dict':
                fs += [('get', lambda: c.get(w)), ('[]', lambda: work.outcome_of(lambda: c[w])),
                       ('pop absent', lambda: w in c or c.pop(w, None)), ('overwrite', lambda: w in c and c.__setitem__(w, 4)),
                       ('setdefault present', lambda: w in c and c.setdefault(w, 4)), ('keys in', lambda: w in c.keys())]
            else:
                fs += [('count', lambda: c.count(w)), ('add present', lambda: w in c and c.add(w)),
                       ('discard absent', lambda: w in c or c.discard(w)), ('isdisjoint', lambda: c.isdisjoint([w])),
                       ('issuperset', lambda: c.issuperset([w]))]
            name, f = rng.choice(fs)
            _, cost = measured(f)
            ctx.n('hash_ops')
            ctx.check(cost[LT] == 0 and cost[KEY] == 0, f'{kind} {name}: ordering comparisons or key calls', cost)
            ctx.check(cost[EQ] <= 12, f'{kind} {name}: equality comparisons', cost)
    # bulk updates
    for _ in range(6):
        n = len(c)
        k = rng.choice((1, 3, 20, n // 50, n // 11, n // 9, n // 5, n // 4, n // 3))
        vals = [Cnt(rng.randrange(span)) for _ in range(k)]
        names = {'list': ('update', 'iadd'), 'keylist': ('update', 'iadd'),
                 'set': ('update', 'ior', 'difference_update'), 'dict': ('update', 'ior')}[kind]
        name = rng.choice(names)
        arg = dict.fromkeys(vals) if kind == 'dict' else vals
        op = (name, arg)
        _, cost = measured(lambda: work.apply(c, op))
        bound = 18 * (k + 1) * log2(n + k + 2) + 64
        ctx.n('bulk_ops')
        ctx.log(name, str(k), str(n), str(cost))
        ctx.check(cost[LT] + cost[EQ] <= bound, f'{kind} {name} of {k} values at n={n}, load={load}: comparisons / bound',
                  cost, bound)


# -- positional reads ----------------------------------------------------------------


class Steps:
    """LINE events anywhere but in this harness."""

    TOOL = 2
    HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def __init__(self):
        self.n = 0

    def cb(self, code, line):
        if code.co_filename.startswith(self.HERE):
            return sys.monitoring.DISABLE
        self.n += 1

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'vmon-c15')
        mon.register_callback(self.TOOL, mon.events.LINE, self.cb)
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


class Seg(list):
    """A segment that counts being measured or walked."""

    __slots__ = ()

    def __len__(self):
        COUNT[TOUCH] += 1
        return list.__len__(self)

    def __iter__(self):
        COUNT[TOUCH] += 1
        return list.__iter__(self)

    def __reversed__(self):
        COUNT[TOUCH] += 1
        return list.__reversed__(self)


PEAK = 12_000  # the index of 3000 segments alone takes 24 kB
TOUCHES = 60


def watch_segments(c):
    """Swaps the segments for counting ones; False where there are none to be found."""
    sl = getattr(c, '_list', c)
    done = False
    for name in ('_lists', '_keys'):
        lists = getattr(sl, name, None)
        if type(lists) is list and all(type(x) is list for x in lists):
            lists[:] = map(Seg, lists)
            done = True
    return done


def positional(ctx, rng):
    """No comparisons, few steps, no size-proportional allocation once the index exists."""
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    load = rng.choice((8, 12, 16, 32, 64))
    n = load * rng.choice((3000, 4096, 5000))
    ctx.log('positional', kind, str(load), str(n))
    ctx.shape('positional', kind, load, n, rng.random())
    vals = range(0, 2 * n, 2)
    if kind == 'list':
        c = SortedList()
    elif kind == 'keylist':
        c = SortedKeyList(key=neg)
    elif kind == 'set':
        c = SortedSet()
    else:
        c = SortedDict()
    c._reset(load)
    c.update(((v, v) for v in vals) if kind == 'dict' else vals)
    seq = c.keys() if kind == 'dict' else c
    size = len(c)

    def reads():
        i = rng.randrange(-size, size)
        v = 2 * rng.randrange(n)
        if rng.random() < 0.4:
            return starts(i)
        if kind == 'dict' and rng.random() < 0.5:
            ctx.n('view_reads')
            items, values = c.items(), c.values()
            cut = slice(i % (size - 9), i % (size - 9) + 7)
            return rng.choice((
                ('peekitem', lambda: c.peekitem(i)), ('items()[]', lambda: items[i]), ('values()[]', lambda: values[i]),
                ('items() slice', lambda: items[cut]), ('values() slice', lambda: values[cut]),
                ('in keys()', lambda: v in c.keys()), ('in items()', lambda: (v, v) in items), ('get', lambda: c.get(v)),
                ('len of a view', lambda: len(values)), ('peekitem()', lambda: c.peekitem() and c.peekitem(0))))
        return rng.choice((
            ('[]', lambda: seq[i]), ('len', lambda: (len(c), bool(c))), ('in', lambda: (v in c, v + 1 in c)),
            ('count', lambda: seq.count(v) if kind != 'dict' else None), ('bisect_left', lambda: c.bisect_left(v)), ('bisect_right', lambda: c.bisect_right(v)),
            ('index', lambda: work.outcome_of(lambda: c.index(v))), ('islice', lambda: list(c.islice(i, i + 5 if i < -6 or i >= 0 else None))),
            ('small slice', lambda: seq[i % (size - 9): i % (size - 9) + 7]),
            ('irange', lambda: list(c.irange(v, v + 8) if kind != 'keylist' else c.irange(v + 8, v)))))

    def starts(i):
        """The first values of an iteration."""
        ctx.n('iterations_started')
        v = 2 * rng.randrange(n)
        rev = rng.random() < 0.5
        fs = [('iter', lambda: take(iter(c))), ('reversed', lambda: take(reversed(c))),
              ('irange', lambda: take(c.irange(v, None, reverse=rev))), ('irange max', lambda: take(c.irange(None, v, reverse=rev))),
              ('irange all', lambda: take(c.irange(reverse=rev))), ('islice', lambda: take(c.islice(i % size, None, rev))),
              ('islice stop', lambda: take(c.islice(None, i % size, rev)))]
        if kind == 'dict':
            fs += [('iter keys()', lambda: take(iter(c.keys()))), ('iter items()', lambda: take(iter(c.items()))),
                   ('iter values()', lambda: take(iter(c.values()))), ('reversed keys()', lambda: take(reversed(c.keys()))),
                   ('reversed items()', lambda: take(reversed(c.items()))),
                   ('reversed values()', lambda: take(reversed(c.values())))]
        elif kind == 'keylist':
            fs += [('irange_key', lambda: take(c.irange_key(-v, None, reverse=rev)))]
        return rng.choice(fs)

    # one update per stratum of at least ten segments: none splits or merges
    strata = list(range(200))
    rng.shuffle(strata)

    def updates():
        at = (strata.pop() + rng.random()) / 200
        odd = 2 * int(at * n) + 1
        i = int(at * size)
        if kind == 'dict':
            return rng.choice((('set', lambda: c.__setitem__(odd, 0)), ('popitem', lambda: c.popitem(i)),
                               ('setdefault', lambda: c.setdefault(odd, 0)), ('del keys()[]', lambda: c.keys().__delitem__(i)),
                               ('del items()[]', lambda: c.items().__delitem__(i)),
                               ('del values()[]', lambda: c.values().__delitem__(i)),
                               ('del', lambda: c.__delitem__(seq[i])), ('pop', lambda: c.pop(seq[i]))))
        return rng.choice((('add', lambda: c.add(odd)), ('pop', lambda: c.pop(i)), ('del', lambda: c.__delitem__(i)),
                           ('remove', lambda: c.remove(seq[i])), ('discard', lambda: c.discard(seq[i]))))

    seq[size // 2]
    c.bisect_left(n)
    gc.collect()
    gc.disable()
    maxsteps = 150 + 12 * lg(n)
    try:
        tracemalloc.start()
        for turn in range(120):
            size = len(c)
            name, f = updates() if turn % 2 and turn > 20 else reads()
            before = tracemalloc.get_traced_memory()[0]
            tracemalloc.reset_peak()
            f()
            peak = tracemalloc.get_traced_memory()[1] - before
            ctx.n('alloc_ops')
            ctx.n('index_kept', turn > 20)
            ctx.check(peak <= PEAK or ctx.stepping or grows_hash(kind, name), f'{kind} {name} at n={size}: peak allocation / limit', peak, PEAK)
    finally:
        tracemalloc.stop()
        gc.enable()
    watched = watch_segments(c)
    with Steps() as steps:
        for turn in range(80):
            size = len(c)
            name, f = updates() if turn % 2 else reads()
            start = steps.n
            _, cost = measured(f)
            used = steps.n - start
            ctx.n('read_ops')
            if watched:
                ctx.n('segment_touches', cost[TOUCH])
                ctx.check(cost[TOUCH] <= TOUCHES, f'{kind} {name} at n={size}: segments measured or walked / limit',
                          cost[TOUCH], TOUCHES)
            most = 4 * maxsteps if name.startswith(('iter', 'reversed')) else maxsteps  # these yield several values
            ctx.check(used <= most, f'{kind} {name} at n={size}: interpreter lines / limit', used, most)


def grows_hash(kind, name):
    """The hash table of the dict or set itself may be resized by an addition."""
    return kind in ('set', 'dict') and name in ('add', 'set', 'setdefault')


def take(it):
    return [v for v, _ in zip(it, range(3))]


def neg(v):
    return -v


# -- segments --------------------------------------------------------------------------


def segments(ctx, c, load, what):
    """load: as set by the last reset, or by the class."""
    sl = getattr(c, '_list', c)
    lists = getattr(sl, '_lists', None)
    ctx.n('segment_checks')
    if lists is None:
        c._check()
        return 0
    sizes = list(map(len, lists))
    ctx.check(all(s <= 2 * load for s in sizes), f'{what}: a segment over twice the load factor {load}', sizes)
    ctx.check(all(s >= load // 2 for s in sizes[:-1]), f'{what}: a segment under half the load factor {load}', sizes)
    ctx.check(all(sizes), f'{what}: an empty segment', sizes)
    return len(sizes)


def balance(ctx, rng):
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    dom = any_dom(rng, hashable=True)
    if kind == 'keylist' and dom.key is None or kind == 'list' and dom.key is not None:
        kind = 'set'
    load = rng.choice((4, 4, 5, 6, 7, 11, 30))
    c = {'list': lambda: SortedList(), 'keylist': lambda: SortedKeyList(key=dom.key),
         'set': lambda: SortedSet(key=dom.key), 'dict': lambda: SortedDict(dom.key)}[kind]()
    if kind in ('list', 'keylist') and rng.random() < 0.3:
        # the load factor of a subclass, with no reset
        ctx.n('subclass_loads')
        cls = rng.choice((SmallList, MidList)) if kind == 'list' else SmallKeyList
        c = cls() if kind == 'list' else cls(key=dom.key)
        load = cls.DEFAULT_LOAD_FACTOR
    else:
        c._reset(load)
    ctx.log('balance', kind, type(c).__name__, repr(dom), str(load))
    ctx.shape('balance', kind, type(c).__name__, dom.name, load)
    n0 = rng.choice((0, 30, 200, 600))
    vals = dom.some(rng, n0)
    c.update([(v, 0) for v in vals] if kind == 'dict' else vals)
    segs = segments(ctx, c, load, 'bulk construction')
    mode = 'mix'
    for step in range(220):
        if step % 40 == 0:
            mode = rng.choice(('grow', 'shrink', 'front', 'back', 'mix', 'spot'))
            spot = rng.random()
            ctx.shape(mode)
        n = len(c)
        seq = c.keys() if kind == 'dict' else c
        grow = {'grow': 0.85, 'shrink': 0.1, 'front': 0.3, 'back': 0.3, 'mix': 0.5, 'spot': 0.4}[mode]
        what = mode
        if rng.random() < 0.05:
            vals = dom.some(rng, rng.choice((n // 4, n // 4 + 1, n // 10, 3, 40)))
            what = 'update'
            if n and rng.random() < 0.4:
                ctx.n('one_place')
                vals = work.stretch(rng, dom, list(c), rng.choice((load - 1, load + 1, 2 * load + 1, 3 * load, n // 5)))
            c.update([(v, 0) for v in vals] if kind == 'dict' else vals)
        elif rng.random() < 0.02:
            what = 'updated otherwise'
            if kind in ('list', 'keylist') and n < 1500:
                c = operator.imul(c, rng.choice((0, 1, 2)))
            elif kind == 'set':
                vals = dom.some(rng, rng.choice((3, 40, n)))
                op = rng.choice(('iand', 'ior', 'isub', 'ixor'))
                if op == 'iand':
                    vals += list(c)[:: rng.choice((1, 2))]
                c = getattr(operator, op)(c, vals)
            elif kind == 'dict':
                c = operator.ior(c, dict.fromkeys(dom.some(rng, 40)))
        elif rng.random() < 0.01:
            what = 'updated by reset or clear'
            if rng.random() < 0.5:
                c.clear()
            else:
                load = rng.choice((4, 5, 9, 20))
                c._reset(load)
        elif rng.random() < grow or not n:
            v = dom.gen(rng)
            what = 'add'
            if kind == 'dict':
                c[v] = 0
            else:
                c.add(v)
        else:
            i = {'front': 0, 'back': n - 1, 'spot': int(spot * n)}.get(mode, rng.randrange(n))
            k = rng.randrange(5)
            what = f'removal {k}'
            if k == 0:
                del seq[i]
            elif k == 1:
                (c.popitem if kind == 'dict' else c.pop)(i)
            elif k == 2:
                v = seq[i]
                if kind == 'dict':
                    del c[v]
                else:
                    c.remove(v)
            elif k == 3:
                del seq[i:i + rng.choice((1, 2, 5, n // 8, n // 7))]
            else:
                v = seq[i]
                if kind == 'dict':
                    c.pop(v)
                else:
                    c.discard(v)
        now = segments(ctx, c, load, f'{kind} after {what} ({mode}) at n={len(c)}')
        if not what.startswith('upd'):
            ctx.n('splits', now > segs)
            ctx.n('merges', 0 < now < segs)
        segs = now


def case(ctx):
    rng = ctx.rng
    r = (ctx.case // 8) % 10
    if r < 4:
        counting(ctx, rng)
    elif r < 6:
        positional(ctx, rng)
    else:
        balance(ctx, rng)
