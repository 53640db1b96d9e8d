"""C16: weak references to every value, key and key result; what the container no longer holds must be dead."""

import copy
import gc
import pickle
import weakref

from .. import work
from ..anyobj import SubKeyList, SubList
from ..target import (
    SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet,
)

ID = 'C16'
LEVEL = 'exploration'
TECHNIQUE = ('random histories of weakly referenced objects with the cyclic collector off; after every operation the '
             'set of objects alive is compared with what the container holds, and dropping it must free everything')
QUICK_CASES = 8000
RULE = ('a case drives a container of a random class through a history in which every value, dict value, key result '
        'and argument is a fresh weakly referenced object; after each operation every object still alive must be '
        'stored; at the end views, iterators and derived containers are made and dropped, and the last reference to '
        'the container goes; distinct by class, domain, size, load factor and operation mix')
ASSUMPTIONS = ['CPython reference counting; the cyclic collector is switched off during a case',
               'the deprecated SortedDict.iloc, documented to cache a view inside the dict, is not used',
               'arguments to failing calls count as released once the exception is dropped']
REQUIRED = ['oracle_checks', 'derived', 'ops', 'released', 'dropped', 'list', 'keylist', 'set', 'dict', 'failing_ops',
            'key_results', 'with_views', 'with_index', 'rebuilds', 'overwrites']


class World:
    """Fresh objects and who of them is alive."""

    def __init__(self):
        self.refs = {}
        self.krefs = {}
        self.next = 0
        self.knext = 0

    def track(self, obj):
        self.refs[obj.uid] = weakref.ref(obj)

    def alive(self):
        dead = [u for u, r in self.refs.items() if r() is None]
        for u in dead:
            del self.refs[u]
        return set(self.refs), len(dead)

    def alive_keys(self):
        """The values whose key results are still alive."""
        out = set()
        dead = []
        for u, r in self.krefs.items():
            o = r()
            if o is None:
                dead.append(u)
            else:
                out.add(o.src)
        for u in dead:
            del self.krefs[u]
        return out


WORLD = World()


class Thing:
    __slots__ = ('rank', 'uid', '__weakref__')

    def __init__(self, rank):
        self.rank = rank
        WORLD.next += 1
        self.uid = WORLD.next
        WORLD.track(self)

    def __lt__(self, o):
        return self.rank < o.rank

    def __le__(self, o):
        return self.rank <= o.rank

    def __gt__(self, o):
        return self.rank > o.rank

    def __ge__(self, o):
        return self.rank >= o.rank

    def __eq__(self, o):
        return isinstance(o, Thing) and self.rank == o.rank

    def __hash__(self):
        return hash(self.rank)

    def __reduce__(self):
        return (type(self), (self.rank,))

    def __deepcopy__(self, memo):
        return type(self)(self.rank)

    def __repr__(self):
        return f'Thing({self.rank})'


class KeyRes:
    """A key-function result, remembering which value it was computed from."""

    __slots__ = ('k', 'src', '__weakref__')

    def __init__(self, k, src):
        self.k = k
        self.src = src
        WORLD.knext += 1
        WORLD.krefs[WORLD.knext] = weakref.ref(self)

    def __lt__(self, o):
        return self.k < o.k

    def __le__(self, o):
        return self.k <= o.k

    def __gt__(self, o):
        return self.k > o.k

    def __ge__(self, o):
        return self.k >= o.k

    def __eq__(self, o):
        return isinstance(o, KeyRes) and self.k == o.k

    __hash__ = None


def key_neg(v):
    return KeyRes(-v.rank, v.uid)


def key_mod(v):
    return KeyRes(v.rank % 5, v.uid)


def key_id(v):
    return v


KEYS = (key_neg, key_neg, key_mod, key_id)
CLASSES = {'list': (SortedList, SortedList, SmallList, SubList), 'keylist': (SortedKeyList, SortedKeyList, SmallKeyList, SubKeyList),
           'set': (SortedSet, SubSet), 'dict': (SortedDict, SubDict)}


def new(kind, cls, key):
    if kind == 'list':
        return cls()
    if kind == 'dict':
        return cls(key) if key else cls()
    return cls(key=key)


def held(kind, c):
    """The uids of everything the container says it stores."""
    if kind == 'dict':
        out = {k.uid for k in c}
        out.update(v.uid for v in dict.values(c))
        return out
    return {v.uid for v in c}


def survey(ctx, kind, c, what):
    alive, gone = WORLD.alive()
    ctx.n('released', gone)
    stored = held(kind, c) if c is not None else set()
    if not alive <= stored:
        left = sorted(alive - stored)[:5]
        ctx.fail(f'{what}: removed or never stored objects are still alive: uids (of {len(alive - stored)})', left)
    if kind == 'dict' and c is not None:
        keys = {k.uid for k in c}
    else:
        keys = stored
    kalive = WORLD.alive_keys()
    ctx.n('key_results', len(kalive))
    ctx.check(kalive <= keys, f'{what}: key results of values no longer stored are still alive', sorted(kalive - keys)[:5])


def some(rng, k, span):
    return [Thing(rng.randrange(span)) for _ in range(k)]


def probe(rng, ranks, span):
    """A fresh object, usually equal to a stored one."""
    return Thing(rng.choice(ranks)) if ranks and rng.random() < 0.7 else Thing(rng.randrange(span))


def bulk(rng, n, span):
    k = work.pick_bulk_size(rng, n)
    return some(rng, k, span)


LIST_OPS = ('add', 'add', 'add', 'update', 'update_gen', 'remove', 'discard', 'pop', 'pop0', 'del', 'delslice', 'iadd',
            'clear', 'reset', 'read', 'look', 'concat', 'copies', 'fail', 'imul', 'partial')
SET_OPS = ('add', 'add', 'add', 'update', 'update_gen', 'remove', 'discard', 'pop', 'pop0', 'del', 'delslice', 'ior',
           'iand', 'isub', 'ixor', 'binary', 'clear', 'reset', 'read', 'look', 'copies', 'fail', 'partial')
DICT_OPS = ('set', 'set', 'set', 'overwrite', 'overwrite', 'setdefault', 'popkey', 'popitem', 'delkey', 'viewdel',
            'update', 'update_gen', 'update_map', 'ior', 'clear', 'reset', 'read', 'look', 'binary', 'copies', 'fail',
            'partial', 'fromkeys')


def do(ctx, rng, kind, c, op, span, key):
    """One operation; every object it makes dies with this frame."""
    n = len(c)
    ranks = [v.rank for v in c] if n < 300 else [c.peekitem(rng.randrange(n))[0].rank if kind == 'dict' else c[rng.randrange(n)].rank]
    seq = c.keys() if kind == 'dict' else c
    if op == 'add':
        c.add(probe(rng, ranks if rng.random() < 0.4 else None, span))
    elif op == 'set':
        c[Thing(rng.randrange(span))] = Thing(rng.randrange(9))
    elif op == 'overwrite':
        c[probe(rng, ranks, span)] = Thing(rng.randrange(9))
        ctx.n('overwrites')
    elif op == 'setdefault':
        c.setdefault(probe(rng, ranks, span), Thing(3))
    elif op in ('update', 'update_gen', 'iadd', 'ior', 'update_map'):
        vals = bulk(rng, n, span)
        if 4 * len(vals) > n:
            ctx.n('rebuilds')
        if kind == 'dict':
            vals = [(v, Thing(1)) for v in vals]
            if op in ('update_map', 'ior'):
                vals = dict(vals)
        if op == 'iadd':
            c += vals
        elif op == 'ior':
            c |= vals
        elif op == 'update_gen':
            c.update(x for x in vals)
        elif kind == 'set' and rng.random() < 0.3:
            c.update(vals[::2], vals[1::2])
        else:
            c.update(vals)
    elif op == 'remove' and ranks:
        c.remove(Thing(rng.choice(ranks)))
    elif op == 'delkey' and ranks:
        del c[Thing(rng.choice(ranks))]
    elif op == 'discard':
        c.discard(probe(rng, ranks, span))
    elif op == 'popkey':
        c.pop(probe(rng, ranks, span), None)
    elif op == 'popitem' and n:
        c.popitem(rng.randrange(-n, n))
    elif op == 'pop' and n:
        c.pop(rng.randrange(-n, n))
    elif op == 'pop0' and n:
        c.pop(rng.choice((0, -1)))
    elif op == 'del' and n:
        del c[rng.randrange(-n, n)]
    elif op in ('delslice', 'viewdel'):
        view = c if kind != 'dict' else rng.choice((c.keys, c.items, c.values))()
        if n and rng.random() < 0.4:
            del view[rng.randrange(-n, n)]
        else:
            del view[work.pick_slice(rng, c, n)]
    elif op == 'iand':
        c &= some(rng, 3, span) + [v for v in c if rng.random() < 0.9]
    elif op == 'isub':
        arg = [Thing(rng.choice(ranks)) for _ in range(rng.choice((0, 1, 2, max(1, n // 3))))] if ranks else []
        if rng.random() < 0.5:
            c -= arg
        else:
            c.difference_update(arg[::2], arg[1::2])
    elif op == 'ixor':
        c ^= bulk(rng, n, span)
    elif op == 'clear':
        if rng.random() < 0.3:
            c.clear()
    elif op == 'reset':
        c._reset(rng.choice((4, 5, 8, 1000)))
    elif op == 'imul':
        if n < 200:
            c *= rng.choice((0, 1, 2))
    elif op == 'read' and n:
        ctx.n('with_index')
        for _ in range(3):
            seq[rng.randrange(-n, n)]
        seq[work.pick_slice(rng, c, n)]
    elif op == 'look':
        p = probe(rng, ranks, span)
        p in c
        c.bisect_left(p), c.bisect_right(p), c.bisect(p)
        if kind != 'dict':
            c.count(p)
        else:
            c.get(p)
            c.peekitem(0) if n else None
        try:
            c.index(p)
        except ValueError:
            pass
        list(c.irange(p, Thing(span)))
        if key not in (None, key_id):
            c.bisect_key_left(key(p))
            list(c.irange_key(key(p), None))
    elif op == 'partial':
        # iterators given up half-way
        p = probe(rng, ranks, span)
        its = [iter(c), reversed(c), c.irange(p), c.islice(0, n // 2)]
        if kind == 'dict':
            its += [iter(c.items()), iter(c.values()), reversed(c.keys())]
        for it in its:
            next(it, None)
    elif op == 'concat':
        if n < 400:
            x = c + some(rng, 2, span)
            x *= 2
            y = some(rng, 2, span) + c
            z = c * 2
            len(x) + len(y) + len(z)
    elif op == 'binary':
        if kind == 'dict':
            other = {Thing(1): Thing(2)}
            c | other, other | c
            c.keys() & set(other), c.keys() | set(other), c.items() & set(), c.keys() == set(other)
        else:
            o = some(rng, 4, span)
            c | o, c & o, c - o, c ^ o, c < set(o), c >= set(o), c == set(o)
            c.union(o, o), c.difference(o), c.isdisjoint(o), set(o) - c, set(o) ^ c
    elif op == 'fromkeys':
        type(c).fromkeys(some(rng, 3, span), Thing(0))
    elif op == 'copies':
        if n < 400:
            x = [c.copy(), copy.copy(c), copy.deepcopy(c), pickle.loads(pickle.dumps(c))]
            for y in x[:2]:
                if len(y):
                    (y.popitem if kind == 'dict' else y.pop)()
            repr(c)
    elif op == 'fail':
        ctx.n('failing_ops')
        fails = [lambda: c.update(5), lambda: seq[10**6], lambda: (c.popitem if kind == 'dict' else c.pop)(10**6),
                 lambda: c.index(Thing(-10**6)), lambda: c.update(gen_fail(span, kind))]
        if kind == 'dict':
            fails += [lambda: c.pop(Thing(-10**6)), lambda: c.__delitem__(Thing(-10**6)), lambda: c[Thing(-10**6)],
                      lambda: c.peekitem(10**6), lambda: c.setdefault([])]
        else:
            fails += [lambda: c.remove(Thing(-10**6)), lambda: c.add(None) if n else None]
        for f in rng.sample(fails, 3):
            try:
                f()
            except Exception:
                pass
            else:
                continue


def derive(rng, kind, c):
    ways = {'list': (('+', lambda: c + []), ('radd', lambda: [] + c), ('*', lambda: c * 1), ('cls(c)', lambda: remake(kind, c, c)),
                     ('cls(iter)', lambda: remake(kind, c, iter(c)))),
            'set': (('|', lambda: c | []), ('&', lambda: c & set(c)), ('-', lambda: c - []), ('^', lambda: c ^ []),
                    ('rand', lambda: set(c) & c), ('ror', lambda: set() | c), ('union', lambda: c.union()),
                    ('intersection', lambda: c.intersection()), ('cls(c)', lambda: remake(kind, c, c))),
            'dict': (('|', lambda: c | {}), ('ror', lambda: {} | c), ('cls(items)', lambda: remake(kind, c, c.items())),
                     ('cls(c)', lambda: remake(kind, c, c)))}
    how, f = rng.choice(ways['list' if kind == 'keylist' else kind] + (('copy()', lambda: c.copy()), ('copy.copy', lambda: copy.copy(c)),
                        ('deepcopy', lambda: copy.deepcopy(c)), ('pickle', lambda: pickle.loads(pickle.dumps(c)))))
    return how, f()


def remake(kind, c, arg):
    if kind == 'list':
        return type(c)(arg)
    return type(c)(c.key, arg) if kind == 'dict' else type(c)(arg, key=c.key)


def gen_fail(span, kind):
    yield (Thing(span + 1), Thing(0)) if kind == 'dict' else Thing(span + 1)
    raise RuntimeError('part-way')


def step(ctx, rng, kind, c, op, span, key):
    try:
        do(ctx, rng, kind, c, op, span, key)
    except Exception as e:
        # only the documented absence errors are expected here
        ctx.fail(f'{op} raised {type(e).__name__}: {e}')


def views_of(rng, kind, c):
    """Made and dropped again, some read half-way."""
    if kind == 'dict':
        vs = [c.keys(), c.items(), c.values(), iter(c.items()), reversed(c), c.irange(), c.islice()]
    else:
        vs = [iter(c), reversed(c), c.irange(), c.islice(), c.copy()]
    for v in vs:
        if rng.random() < 0.5:
            for _ in v:
                break
    methods = [c.bisect_left, c.index, c.update, c.copy]
    return len(vs) + len(methods)


def case(ctx):
    gc.disable()
    try:
        run(ctx)
    finally:
        gc.enable()
        if ctx.case % 16 == 0:
            gc.collect()


def run(ctx):
    global WORLD
    WORLD = World()
    rng = ctx.rng
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    cls = rng.choice(CLASSES[kind])
    key = None if kind == 'list' else rng.choice(KEYS) if kind == 'keylist' or rng.random() < 0.5 else None
    prof = work.profile(rng, 0.6, only=('tiny', 'small', 'small', 'medium', 'medium', 'wide'))
    n = min(prof.n, 900)
    span = rng.choice((3, 20, 200, 2000))
    big = rng.random() < 0.006
    if big:
        n = rng.choice((2000, 5000, 8000))
        span = rng.choice((2000, 10**6))
        prof.load = rng.choice((prof.load, 50, None))
        prof.ops = min(prof.ops, 12)
        ctx.n('big')
    ctx.n(kind)
    ctx.shape(kind, cls.__name__, getattr(key, '__name__', None), n, prof.load, span)
    ctx.log('world', kind, cls.__name__, getattr(key, '__name__', 'no key'), str(n), str(prof.load), str(span))
    c = new(kind, cls, key)
    if prof.load:
        c._reset(prof.load)
    if kind == 'dict':
        c.update((v, Thing(0)) for v in some(rng, n, span))
    else:
        c.update(some(rng, n, span))
    survey(ctx, kind, c, 'building')
    names, w = work.weights(rng, {'list': LIST_OPS, 'keylist': LIST_OPS, 'set': SET_OPS, 'dict': DICT_OPS}[kind])
    emptied_at = rng.randrange(prof.ops) if big and rng.random() < 0.7 else -1
    for turn in range(prof.ops):
        if rng.random() < 0.04 and len(c) < 400:
            # go on with a derived container; the one it came from must be gone
            old = weakref.ref(c)
            how, c = derive(rng, kind, c)
            ctx.log(how)
            ctx.n('derived')
            ctx.check(old() is None, f'{cls.__name__}: the original of {how} is kept alive by what was derived from it')
            survey(ctx, kind, c, f'{cls.__name__} after {how}')
        op = rng.choices(names, w)[0] if turn != emptied_at else 'clear'
        ctx.log(op, f'n={len(c)}')
        ctx.n('ops')
        step(ctx, rng, kind, c, op, span, key)
        survey(ctx, kind, c, f'{cls.__name__} after {op}')
    if rng.random() < 0.7:
        views_of(rng, kind, c)
        ctx.n('with_views')
    if rng.random() < 0.2:
        step(ctx, rng, kind, c, 'partial', span, key)
    if rng.random() < 0.3:
        # a view is the last thing that keeps a dict
        if kind == 'dict' and len(c):
            v = c.values()
            wr = weakref.ref(c)
            c = None
            ctx.check(wr() is not None and len(list(v)) == len(v), 'a view lost its dict')
            c = wr()
            v = None
    wr = weakref.ref(c)
    before = len(c)
    c = None
    ctx.n('dropped')
    ctx.check(wr() is None, f'{cls.__name__} of {before} values is kept alive after its last reference is gone')
    survey(ctx, kind, None, f'{cls.__name__} dropped')
