"""Workloads on sorted dicts, mirrored on built-in dicts."""

from collections import ChainMap, OrderedDict, UserDict, defaultdict
from types import MappingProxyType

from . import work
from .target import SortedDict, SubDict
from .values import Arg, Dom, any_dom


class Val:
    """A dict value: identity matters, ordered by number."""

    __slots__ = ('n', '__weakref__')

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Val) and self.n == other.n

    def __lt__(self, other):
        return self.n < other.n

    def __hash__(self):
        return hash(self.n)

    def __reduce__(self):
        return (Val, (self.n,))

    def __repr__(self):
        return f'Val({self.n})'


_stored = {}


class MissDict(SortedDict):
    """__missing__ that only answers."""

    def __missing__(self, key):
        return ('missing', key)


class MissStoreDict(SortedDict):
    """__missing__ that stores what it answers."""

    def __missing__(self, key):
        v = self[key] = _stored.setdefault(key, ('stored', key))
        return v


class PlainMiss(dict):
    def __missing__(self, key):
        return ('missing', key)


class PlainMissStore(dict):
    def __missing__(self, key):
        v = self[key] = _stored.setdefault(key, ('stored', key))
        return v


CLASSES = [(SortedDict, dict)] * 6 + [(SubDict, dict), (MissDict, PlainMiss), (MissStoreDict, PlainMissStore)]


def dict_dom(rng):
    return any_dom(rng, hashable=True)


def str_dom(rng):
    s = rng.choice((3, 30, 400))
    return Dom(f'ident/{s}', lambda r: f'k{r.randrange(s)}', lambda r, v: ''.join(list(v)), inject=True)


def build(rng, cls, plain, dom, load, pairs):
    """A sorted dict of pairs built in one of the documented ways, and its mirror."""
    key = dom.key
    _stored.clear()
    model = plain()
    c = rng.randrange(6)
    args = () if key is None and rng.random() < 0.6 else (key,)
    if c == 0:
        sd = cls(*args, pairs)
    elif c == 1:
        sd = cls(*args, dict(pairs))
    elif c == 2:
        sd = cls(*args, Arg(rng.choice(Arg.KINDS), pairs).make())
    elif c == 3:
        sd = cls(*args)
        if load:
            sd._reset(load)
        sd.update(pairs)
    else:
        sd = cls(*args)
        if load:
            sd._reset(load)
        if len(pairs) > 1500:
            sd.update(pairs)
        else:
            for k, v in pairs:
                sd[k] = v
    for k, v in pairs:
        model[k] = v
    if load and c < 3:
        sd._reset(load)
    return sd, model


def pick_dict_key(rng, dom, ref, present=0.6):
    return work.pick_value(rng, dom, ref, present)


class Lookup(dict):
    """Answers look-ups in its own way; dict.update() takes what is stored."""

    def __getitem__(self, key):
        return ('looked up', dict.__getitem__(self, key))

    def get(self, key, default=None):
        return ('got', dict.get(self, key, default))

    def items(self):
        return [(k, self[k]) for k in dict.keys(self)]

    def values(self):
        return [self[k] for k in dict.keys(self)]


class KeysOnly:
    """All that dict.update() asks of a mapping."""

    def __init__(self, pairs):
        self._d = dict(pairs)

    def keys(self):
        return iter(self._d)

    def __getitem__(self, key):
        return self._d[key]


class KeysAndMore(KeysOnly):
    """Iterates like a mapping too, without being registered as one."""

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class KeysAndPairs(KeysOnly):
    """Iteration gives pairs of its own, which dict.update() does not ask for."""

    def __iter__(self):
        return iter([(k, 'iterated') for k in self._d])


class OwnKeys(dict):
    """keys() and iteration in an order, and through objects, of its own; read through them by dict.update()."""

    def keys(self):
        return list(dict.keys(self))[::-1]

    def __iter__(self):
        return iter(self.keys())


def mapping_arg(rng, pairs, dom):
    """The same pairs in one of the forms update() takes, made afresh."""
    c = rng.randrange(14)
    if c == 10:
        return Lookup(pairs)
    if c == 11:
        return rng.choice((KeysOnly, KeysAndMore, KeysAndPairs))(pairs)
    if c == 12:
        return OwnKeys(pairs)
    if c == 13:
        d = defaultdict(list)
        d.update(pairs)
        return d
    if c == 0:
        return list(pairs)
    if c == 1:
        return (p for p in pairs)
    if c == 2:
        return iter([list(p) for p in pairs])
    if c in (3, 4, 5):
        return dict(pairs)
    if c == 6:
        return OrderedDict(pairs)
    if c == 7:
        return UserDict(dict(pairs))
    if c == 8:
        return MappingProxyType(dict(pairs))
    return SortedDict(dom.key, pairs)


def mapping_only(rng, pairs, dom):
    c = rng.randrange(7)
    d = dict(pairs)
    if c < 2:
        return d
    if c == 2:
        return OrderedDict(d)
    if c == 3:
        return UserDict(d)
    if c == 4:
        return MappingProxyType(d)
    if c == 5:
        return ChainMap(d)
    return SortedDict(dom.key, d)


def update_size(rng, n):
    c = rng.randrange(10)
    if c == 0:
        return 0
    if c < 5:
        # around the ratio at which update() rebuilds everything: 10 * k > n
        return max(0, n // 10 + rng.choice((-1, 0, 1)))
    if c < 8:
        return rng.randrange(0, 6)
    return rng.randrange(0, max(2, n // 2))
