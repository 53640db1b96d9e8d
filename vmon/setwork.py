"""Workloads on sorted sets, mirrored on built-in sets."""

from . import work
from .target import SortedDict, SortedList, SortedSet, SubSet
from .values import Arg

CLASSES = [SortedSet] * 5 + [SubSet]


def build(rng, cls, dom, load, vals):
    key = dom.key
    c = rng.randrange(4)
    if c == 0 or len(vals) > 1500:
        ss = cls(Arg(rng.choice(Arg.HASH_KINDS), vals).make(), key=key)
        if load:
            ss._reset(load)
        return ss
    ss = cls(key=key) if key is not None or rng.random() < 0.5 else cls()
    if load:
        ss._reset(load)
    if c == 1:
        ss.update(vals[: len(vals) // 2], vals[len(vals) // 2:])
    elif c == 2:
        ss |= vals
    else:
        for v in vals:
            ss.add(v)
    return ss


def update_size(rng, n):
    c = rng.randrange(10)
    if c == 0:
        return 0
    if c < 5:
        # around the ratio at which in-place operations rebuild: 4 * k > n
        return max(0, n // 4 + rng.choice((-1, 0, 1)))
    if c < 8:
        return rng.randrange(0, 6)
    return rng.randrange(0, max(2, n))


KINDS = Arg.HASH_KINDS + ('sortedset', 'sortedlist', 'sorteddict', 'self')


def operand(rng, dom, ref, lazy=True, hashes=True):
    """(what the operation gets, its members) for one iterable operand."""
    k = update_size(rng, len(ref))
    vals = [work.pick_value(rng, dom, ref, 0.6) for _ in range(k)]
    kind = rng.choice(Arg.HASH_KINDS + ('sortedset', 'sortedset', 'sortedlist', 'sorteddict', 'othersort'))
    if not lazy and kind in ('gen', 'iter'):
        kind = 'list'
    if kind == 'sortedset':
        return SortedSet(vals, key=dom.key), vals
    if kind == 'sortedlist':
        return SortedList(vals, key=dom.key), vals
    if kind == 'sorteddict':
        return SortedDict(dom.key, dict.fromkeys(vals)), vals
    if kind == 'othersort':
        return SortedSet(vals, key=id), vals
    return Arg(kind, vals).make(), vals
