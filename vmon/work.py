"""Workloads: sizes and load factors, and operations as replayable data."""

from bisect import bisect_left, bisect_right

from .target import SortedKeyList, SortedList, SmallKeyList, SmallList, MidList
from .values import Arg, real

# -- profiles -------------------------------------------------------------------


class Profile:
    def __init__(self, name, n, load, ops):
        self.name, self.n, self.load, self.ops = name, n, load, ops

    def __repr__(self):
        return f'{self.name}(n={self.n},load={self.load},ops={self.ops})'


def profile(rng, scale=1.0, only=None, rare=0.0):
    c = rng.random()
    if only:
        kind = rng.choice(only)
        if rng.random() < rare:
            kind = rng.choice(('wide', 'default', 'default', 'large'))
    elif rng.random() < 0.006:
        kind = 'large'
    elif c < 0.22:
        kind = 'tiny'
    elif c < 0.60:
        kind = 'small'
    elif c < 0.84:
        kind = 'medium'
    elif c < 0.96:
        kind = 'wide'
    else:
        kind = 'default'
    if kind == 'tiny':
        p = Profile(kind, rng.randrange(0, 9), 4, rng.randrange(20, 70))
    elif kind == 'small':
        p = Profile(kind, rng.randrange(0, 70), rng.choice((4, 4, 4, 5, 6, 7, 8)), rng.randrange(50, 150))
    elif kind == 'medium':
        p = Profile(kind, rng.randrange(80, 420), rng.choice((4, 5, 6, 9, 12, 20)), rng.randrange(40, 110))
    elif kind == 'wide':
        load = rng.choice((4, 4, 5, 6))
        if rng.random() < 0.5:
            # segment counts around powers of two, where the index tree changes depth
            n = load * (2 ** rng.randrange(5, 9) + rng.choice((-1, 0, 1, 1, 2)))
        else:
            n = rng.randrange(600, 2200)
        p = Profile(kind, n, load, rng.randrange(20, 50))
    elif kind == 'large':
        # thousands of segments, or segments of thousands of values
        load = rng.choice((4, 4, 7, 30, 100, 250, 3000, 12000, None))
        if load == 4:
            n = load * (2 ** rng.randrange(10, 13) + rng.choice((-1, 0, 1, 2)))
        else:
            n = rng.randrange(5000, 30000)
        p = Profile(kind, n, load, rng.randrange(6, 14))
    else:
        p = Profile(kind, rng.randrange(1200, 5200), None, rng.randrange(8, 20))
    p.ops = max(4, int(p.ops * scale))
    return p


# -- building sorted lists ---------------------------------------------------------


def build_list(rng, dom, prof, values, growth=None):
    """A sorted list of `values`, in one of several ways."""
    key = dom.key
    load = prof.load
    subclass = None
    if load == 4 and key is None and rng.random() < 0.3:
        subclass = SmallList
    elif load == 9 and key is None:
        subclass = MidList
    elif load == 5 and key is not None and rng.random() < 0.5:
        subclass = SmallKeyList
    if subclass is not None:
        def make(it=None):
            return subclass(it) if key is None else subclass(it, key)
    else:
        def make(it=None):
            if key is None:
                sl = SortedList(it) if it is not None else SortedList()
            elif rng.random() < 0.5:
                sl = SortedList(it, key=key)
            else:
                sl = SortedKeyList(it, key=key)
            if load is not None:
                sl._reset(load)
            return sl
    if growth is None:
        growth = rng.choice(('bulk', 'bulk', 'add', 'asc', 'desc', 'mixed', 'reset'))
    if prof.n > 800 and growth not in ('bulk', 'reset') and rng.random() < 0.6:
        growth = 'bulk'
    if growth == 'bulk':
        return make(Arg(rng.choice(Arg.KINDS), values).make())
    if growth == 'reset':
        sl = make(values)
        sl._reset(rng.randrange(4, 40))
        if load is not None:
            sl._reset(load)
        return sl
    sl = make()
    vs = list(values)
    if growth in ('asc', 'desc'):
        vs = sort_stable(vs, key)
        if growth == 'desc':
            vs.reverse()
    if growth == 'mixed':
        cut = rng.randrange(len(vs) + 1)
        sl.update(vs[:cut])
        vs = vs[cut:]
    for v in vs:
        sl.add(v)
    return sl


def sort_stable(values, key):
    return sorted(values) if key is None else sorted(values, key=key)


# -- reference arithmetic ------------------------------------------------------------


def keys_of(ref, key):
    return list(ref) if key is None else [key(v) for v in ref]


def is_ascending(keys):
    for a, b in zip(keys, keys[1:]):
        if b < a:
            return False
    return True


# -- choosing arguments ----------------------------------------------------------------


def edges(rng, sl, n):
    """A position at or next to a segment edge (workload steering only)."""
    lists = getattr(sl, '_lists', None)
    if lists is None and hasattr(sl, '_list'):
        lists = getattr(sl._list, '_lists', None)
    if not lists or len(lists) < 2:
        return rng.randrange(n) if n else 0
    k = rng.randrange(len(lists))
    pos = sum(map(len, lists[:k])) + rng.choice((-1, 0, 0, 1))
    return min(max(pos, 0), n - 1)


def pick_index(rng, sl, n, oob=0.12):
    if n == 0 or rng.random() < oob:
        return rng.choice((n, n + 1, -n - 1, -n - 2, n + 1000, -n - 1000, 10**9))
    c = rng.randrange(8)
    if c == 0:
        i = rng.choice((0, n - 1, n // 2))
    elif c < 4:
        i = edges(rng, sl, n)
    else:
        i = rng.randrange(n)
    if rng.random() < 0.45:
        i -= n
    if i in (0, 1) and rng.random() < 0.1:
        return bool(i)
    return i


def pick_slice(rng, sl, n):
    def bound():
        c = rng.randrange(10)
        if c < 2:
            return None
        if c == 2:
            return rng.choice((0, n, -n, n + 5, -n - 5, -1, 1, True, 10**9, -10**9, 2**63, -2**64))
        if n and c < 6:
            i = edges(rng, sl, n) + rng.choice((0, 0, 1))
        else:
            i = rng.randrange(n + 1)
        return i - n if rng.random() < 0.4 else i

    c = rng.randrange(12)
    if c == 0 and n:
        # near the ratio where bulk deletion rebuilds: n <= 8 * (stop - start)
        w = max(1, min(n, n // 8 + rng.choice((-1, 0, 1, 2))))
        a = rng.randrange(n - w + 1)
        return slice(a, a + w, rng.choice((None, 1)))
    if c == 1 and n:
        # inside the first or the last segments
        a = rng.randrange(min(n, 5))
        b = a + rng.randrange(4)
        return slice(a, b) if rng.random() < 0.5 else slice(n - b - 1, n - a)
    step = rng.choice((None, None, None, 1, 1, 1, -1, -1, 2, 3, -2, -3, 7, n or 1, -(n or 1), n + 3, 2**64, -2**64))
    return slice(bound(), bound(), step)


def pick_value(rng, dom, ref, present=0.55):
    """A stored value, an equal one, or any other."""
    if ref and rng.random() < present:
        c = rng.randrange(6)
        v = ref[0] if c == 0 else ref[-1] if c == 1 else ref[rng.randrange(len(ref))]
        if rng.random() < 0.4:
            v = dom.twin(rng, v)
        return v
    return dom.gen(rng)


def pick_key(rng, dom, ref):
    """A key (for the *_key methods)."""
    if ref and rng.random() < 0.5:
        return dom.key_of(ref[rng.randrange(len(ref))])
    if dom.keyprobe is not None:
        return dom.keyprobe(rng)
    return dom.key_of(dom.gen(rng))


def pick_bulk_size(rng, n):
    c = rng.randrange(10)
    if c == 0:
        return 0
    if n > 8000 and (n > 30000 or rng.random() < 0.8):
        # a long history of updates by a quarter would grow without bound
        return rng.randrange(0, 8)
    if c < 5:
        # around the ratio at which an update rebuilds everything
        return max(0, n // 4 + rng.choice((-1, 0, 1)))
    if c < 8:
        return rng.randrange(0, 8)
    return rng.randrange(0, max(2, n // 3))


def stretch(rng, dom, ref, k):
    """k values that all belong in one place: after the last, before the first, or around one stored value."""
    key = dom.key or (lambda v: v)
    where = rng.choice(('after', 'after', 'before', 'around'))
    at = ref[{'after': -1, 'before': 0}.get(where, rng.randrange(len(ref)))]
    pool = [at]
    if where != 'around':
        m = key(at)
        for v in dom.some(rng, 30):
            x = key(v)
            if not (x < m if where == 'after' else m < x):
                pool.append(v)
    return [dom.twin(rng, rng.choice(pool)) for _ in range(k)]


def pick_iterable(rng, dom, n, hashable=False):
    k = pick_bulk_size(rng, n)
    kinds = Arg.HASH_KINDS if hashable and dom.hashable else Arg.KINDS
    return Arg(rng.choice(kinds + ('sorted',)), dom.some(rng, k), dom.key)


# -- sorted list operations ---------------------------------------------------------------

LIST_MUTATORS = ('add', 'add', 'add', 'update', 'remove', 'discard', 'pop', 'poplast', 'delitem',
                 'delslice', 'iadd', 'imul', 'clear', 'reset')
LIST_READS = ('getitem', 'getitem', 'getslice', 'bisect_left', 'bisect_right', 'bisect', 'count', 'index',
              'contains', 'irange', 'islice', 'iter', 'reversed', 'len')
LIST_KEY_READS = ('bisect_key_left', 'bisect_key_right', 'bisect_key', 'irange_key')


def weights(rng, names, boost=()):
    """Swarm testing: every case has its own mix of operations."""
    w = {}
    for name in names:
        w[name] = w.get(name, 0) + rng.choice((0, 0.3, 1, 1, 3))
    for name in boost:
        w[name] = w.get(name, 0) + 1
    for rare, cap in (('clear', 0.1), ('imul', 0.12), ('mul', 0.3)):
        if rare in w:
            w[rare] = min(w[rare], cap)
    if not any(w.values()):
        w = dict.fromkeys(w, 1)
    names = [k for k in w if w[k]]
    return names, [w[k] for k in names]


def gen_list_op(rng, dom, sl, ref, name, oob=0.1, cap=6000):
    n = len(ref)
    if name == 'add':
        return ('add', dom.twin(rng, ref[rng.randrange(n)]) if n and rng.random() < 0.3 else dom.gen(rng))
    if name in ('update', 'iadd'):
        arg = pick_iterable(rng, dom, n)
        if n and rng.random() < 0.12:
            arg.items[:] = stretch(rng, dom, ref, rng.choice((1, 2, 3, 9, 20, max(1, n // 5))))
        return (name, arg)
    if name in ('remove', 'discard'):
        return (name, pick_value(rng, dom, ref, 0.85))
    if name == 'pop':
        return ('pop', pick_index(rng, sl, n, oob))
    if name == 'poplast':
        return ('pop',)
    if name == 'delitem':
        return ('delitem', pick_index(rng, sl, n, oob))
    if name == 'delslice':
        return ('delitem', pick_slice(rng, sl, n))
    if name == 'imul':
        return ('imul', rng.choice((0, 1, 1, 2, 2, 3, -1)) if n * 3 < cap else rng.choice((0, 1)))
    if name == 'clear':
        return ('clear',)
    if name == 'reset':
        return ('_reset', rng.choice((4, 4, 5, 6, 7, 8, 13, 40, 1000)))
    if name == 'getitem':
        return ('getitem', pick_index(rng, sl, n, oob))
    if name == 'getslice':
        return ('getitem', pick_slice(rng, sl, n))
    if name in ('bisect_left', 'bisect_right', 'bisect', 'count', 'contains'):
        return (name, pick_value(rng, dom, ref))
    if name == 'index':
        v = pick_value(rng, dom, ref, 0.85)
        c = rng.randrange(4)
        if c == 0:
            return ('index', v)
        if c == 1:
            return ('index', v, pick_bound(rng, n))
        return ('index', v, pick_bound(rng, n), pick_bound(rng, n))
    if name == 'irange':
        return gen_irange(rng, 'irange', lambda: pick_value(rng, dom, ref))
    if name == 'irange_key':
        return gen_irange(rng, 'irange_key', lambda: pick_key(rng, dom, ref))
    if name == 'islice':
        s = pick_slice(rng, sl, n)
        return ('islice', s.start, s.stop, rng.random() < 0.5)
    if name in ('bisect_key_left', 'bisect_key_right', 'bisect_key'):
        return (name, pick_key(rng, dom, ref))
    if name in ('iter', 'reversed', 'len', 'repr', 'copy'):
        return (name,)
    raise AssertionError(name)


def pick_bound(rng, n):
    c = rng.randrange(6)
    if c == 0:
        return rng.choice((0, n, -n, n + 3, -n - 3, 10**9, -10**9, 2**63, -2**64))
    i = rng.randrange(n + 1)
    return i - n if c < 3 else i


def gen_irange(rng, name, bound):
    lo = None if rng.random() < 0.15 else bound()
    hi = None if rng.random() < 0.15 else bound()
    inc = (rng.random() < 0.5, rng.random() < 0.5)
    return (name, lo, hi, inc, rng.random() < 0.5)


# -- applying an operation -------------------------------------------------------------------

# Documented parameter names: now and then the arguments are given by name.
PARAMETERS = {
    'add': ('value',), 'update': ('iterable',), 'remove': ('value',), 'discard': ('value',), 'count': ('value',),
    'pop': ('index',), 'index': ('value', 'start', 'stop'), 'bisect_left': ('value',), 'bisect_right': ('value',),
    'bisect': ('value',), 'islice': ('start', 'stop', 'reverse'),
    'irange': ('minimum', 'maximum', 'inclusive', 'reverse'),
    'irange_key': ('min_key', 'max_key', 'inclusive', 'reverse'),
}


def call(obj, name, args):
    names = PARAMETERS.get(name, ())
    if len(obj) % 7 == 3 and len(args) <= len(names) and isinstance(obj, SortedList):
        return getattr(obj, name)(**dict(zip(names, args)))
    return getattr(obj, name)(*args)


LAZY = {'iter', 'reversed', 'irange', 'islice', 'irange_key'}


def apply(obj, op):
    """Perform op; returns (object afterwards, ('ok', value) | ('exc', exception)).

    Iterators are read out at once.  In-place operators may rebind the object.
    """
    name = op[0]
    args = [real(a) for a in op[1:]]
    after = obj
    try:
        if name == 'getitem':
            v = obj[args[0]]
        elif name == 'delitem':
            del obj[args[0]]
            v = None
        elif name == 'setitem':
            obj[args[0]] = args[1]
            v = None
        elif name == 'contains':
            v = args[0] in obj
        elif name == 'len':
            v = len(obj)
        elif name == 'iter':
            v = list(obj)
        elif name == 'reversed':
            v = list(reversed(obj))
        elif name == 'repr':
            v = repr(obj)
        elif name == 'iadd':
            after += args[0]
            v = None
        elif name == 'imul':
            after *= args[0]
            v = None
        elif name == 'ior':
            after |= args[0]
            v = None
        elif name == 'iand':
            after &= args[0]
            v = None
        elif name == 'isub':
            after -= args[0]
            v = None
        elif name == 'ixor':
            after ^= args[0]
            v = None
        elif name in LAZY:
            v = list(call(obj, name, args))
        else:
            v = call(obj, name, args)
    except Exception as e:
        return obj, ('exc', e)
    return after, ('ok', v)


# -- what a plain list answers -----------------------------------------------------------------


def plain_index(keys_equal_positions, start, stop):
    for p in keys_equal_positions:
        if start <= p < stop:
            return p
    return None


def bisect_ref(keys, k, right):
    return bisect_right(keys, k) if right else bisect_left(keys, k)


def irange_ref(ref, keys, lo, hi, inc, reverse):
    """The values whose key lies between the bounds, by definition."""
    out = []
    for v, k in zip(ref, keys):
        if lo is not None:
            if k < lo or (not inc[0] and not lo < k):
                continue
        if hi is not None:
            if hi < k or (not inc[1] and not k < hi):
                continue
        out.append(v)
    if reverse:
        out.reverse()
    return out


def islice_ref(ref, start, stop, reverse):
    out = ref[slice(start, stop)]
    if reverse:
        out.reverse()
    return out


def outcome_of(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'exc', e


def first_is(seq, v):
    """Position of the object v itself."""
    for i, x in enumerate(seq):
        if x is v:
            return i
    raise ValueError('not there')
