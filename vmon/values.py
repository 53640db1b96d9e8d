"""Value domains, key functions and arguments the workloads draw from."""

import itertools
import operator
from collections import deque
from fractions import Fraction

from .target import SortedList

_uid = itertools.count(1)


class Obj:
    """Totally ordered by rank; equal ranks are equal but distinct objects."""

    __slots__ = ('rank', 'uid', '__weakref__')

    def __init__(self, rank, uid=None):
        self.rank = rank
        self.uid = next(_uid) if uid is None else uid

    def __lt__(self, other):
        if not isinstance(other, Obj):
            return NotImplemented
        return self.rank < other.rank

    def __le__(self, other):
        if not isinstance(other, Obj):
            return NotImplemented
        return self.rank <= other.rank

    def __gt__(self, other):
        if not isinstance(other, Obj):
            return NotImplemented
        return self.rank > other.rank

    def __ge__(self, other):
        if not isinstance(other, Obj):
            return NotImplemented
        return self.rank >= other.rank

    def __eq__(self, other):
        if not isinstance(other, Obj):
            return NotImplemented
        return self.rank == other.rank

    def __ne__(self, other):
        if not isinstance(other, Obj):
            return NotImplemented
        return self.rank != other.rank

    def __hash__(self):
        return hash(('Obj', self.rank))

    def __reduce__(self):
        return (Obj, (self.rank, self.uid))

    def __repr__(self):
        return f'Obj({self.rank}#{self.uid})'


class Loose(Obj):
    """Its comparisons answer with true and false values that are not bools."""

    __slots__ = ()

    def __lt__(self, other):
        return 'less' if isinstance(other, Obj) and self.rank < other.rank else ''

    def __le__(self, other):
        return 1 if isinstance(other, Obj) and self.rank <= other.rank else None

    def __gt__(self, other):
        return [self.rank] if isinstance(other, Obj) and self.rank > other.rank else []

    def __ge__(self, other):
        return 2 if isinstance(other, Obj) and self.rank >= other.rank else 0

    def __eq__(self, other):
        return (0,) if isinstance(other, Obj) and self.rank == other.rank else ()

    def __ne__(self, other):
        return 0 if isinstance(other, Obj) and self.rank == other.rank else 'unequal'

    __hash__ = Obj.__hash__

    def __reduce__(self):
        return (Loose, (self.rank, self.uid))


class LtOnly:
    """Has only the less-than and equality the documentation asks for."""

    __slots__ = ('rank', 'uid', '__weakref__')

    def __init__(self, rank, uid=None):
        self.rank = rank
        self.uid = next(_uid) if uid is None else uid

    def __lt__(self, other):
        return self.rank < other.rank

    def __eq__(self, other):
        if not isinstance(other, LtOnly):
            return NotImplemented
        return self.rank == other.rank

    def __hash__(self):
        return hash(('LtOnly', self.rank))

    def __reduce__(self):
        return (LtOnly, (self.rank, self.uid))

    def __repr__(self):
        return f'LtOnly({self.rank}#{self.uid})'


class Rec:
    """A record with no order of its own: equal when (k, tag) are equal."""

    __slots__ = ('k', 'tag', 'uid', '__weakref__')

    def __init__(self, k, tag, uid=None):
        self.k = k
        self.tag = tag
        self.uid = next(_uid) if uid is None else uid

    def __eq__(self, other):
        if not isinstance(other, Rec):
            return NotImplemented
        return self.k == other.k and self.tag == other.tag

    def __hash__(self):
        return hash(('Rec', self.k, self.tag))

    def __reduce__(self):
        return (Rec, (self.k, self.tag, self.uid))

    def __repr__(self):
        return f'Rec({self.k},{self.tag!r}#{self.uid})'


class URec(Rec):
    """The same, unhashable."""

    __slots__ = ()
    __hash__ = None

    def __eq__(self, other):
        if not isinstance(other, Rec):
            return NotImplemented
        return self.k == other.k and self.tag == other.tag

    def __reduce__(self):
        return (URec, (self.k, self.tag, self.uid))


# -- key functions (module level, so that pickling works) --------------------


def k_identity(v):
    return v


def k_neg(v):
    return -v


def k_mod7(v):
    return v % 7


def k_half(v):
    return v // 2


def k_const(v):
    return 0


def k_len(v):
    return len(v)


def k_lower(v):
    return v.lower()


def k_abs(v):
    return abs(v)


def k_rec(v):
    return v.k


def k_negrec(v):
    return -v.k


def k_pair(v):
    return (v % 3, -v)


def k_list(v):
    return [v % 5, v]


def k_lt(v):
    return LtOnly(v, 0)


def k_lthalf(v):
    return LtOnly(v // 3, 0)


def k_none(v):
    return (v is not None, v or 0)


def k_sq(v):
    return v * v


def k_str(v):
    return str(v)


def k_item(v):
    return v[0]


def k_word(v):
    return tuple(v.split())


class FalsyKey:
    """A callable that counts as false: a key function all the same."""

    def __call__(self, v):
        return -v

    def __bool__(self):
        return False

    def __reduce__(self):
        return 'k_falsy'

    def __repr__(self):
        return 'k_falsy'


k_falsy = FalsyKey()


# -- unkeyed domains ----------------------------------------------------------


class Dom:
    """A value domain, with the key function it is used with (or None)."""

    def __init__(self, name, gen, twin=None, key=None, hashable=True, evaluable=False,
                 orderable=True, inject=False, keyprobe=None, immutable=True):
        self.name = name
        self.gen = gen              # rng -> value
        self._twin = twin           # (rng, value) -> equal value, maybe other type
        self.key = key
        self.hashable = hashable
        self.evaluable = evaluable  # repr can be evaluated
        self.orderable = orderable  # values themselves are totally ordered
        self.inject = inject        # the key function has no ties on the domain
        self.keyprobe = keyprobe    # rng -> key of a possibly absent value
        self.immutable = immutable

    def twin(self, rng, v):
        return self._twin(rng, v) if self._twin else v

    def key_of(self, v):
        return v if self.key is None else self.key(v)

    def some(self, rng, n):
        gen = self.gen
        return [gen(rng) for _ in range(n)]

    def __repr__(self):
        return f'Dom({self.name})'


def _spread(rng):
    return rng.choice((2, 5, 12, 40, 40, 200, 200, 1000, 10**6))


def _num_twin(rng, v):
    c = rng.randrange(4)
    if c == 0 and v in (0, 1):
        return bool(v)
    if c == 1 and v == int(v):
        return int(v)
    if c == 2 and (not isinstance(v, int) or abs(v) < 2**52):
        f = float(v)
        return f if f == v else v
    return v


def _dom_int(rng):
    s = _spread(rng)
    off = rng.choice((0, 0, -s // 2, -s, 10**12))
    return Dom(f'int/{s}', lambda r: r.randrange(s) + off, _num_twin, evaluable=True, inject=True)


def _dom_float(rng):
    s = _spread(rng)
    pool = (float('inf'), float('-inf'), -0.0, 0.0)

    def gen(r):
        c = r.randrange(40)
        return pool[c] if c < 4 else (r.randrange(s) - s // 2) / 4

    return Dom(f'float/{s}', gen, inject=True)


def _dom_num(rng):
    s = _spread(rng)

    def gen(r):
        v = r.randrange(s) - s // 3
        c = r.randrange(6)
        if c == 0:
            return float(v)
        if c == 1:
            return Fraction(2 * v + 1, 2)
        if c == 2:
            return v + 0.5
        if c == 3:
            return r.random() < 0.5
        return v

    return Dom(f'num/{s}', gen, _num_twin, inject=True)


_ALPHA = ['', 'a', 'A', 'b', 'ab', 'é', 'zz', '\x00', 'Z']


def _dom_str(rng):
    s = _spread(rng)

    def gen(r):
        if s < 10:
            return _ALPHA[r.randrange(len(_ALPHA))]
        return ''.join(chr(97 + r.randrange(3 + s % 7)) for _ in range(r.randrange(4)))

    return Dom(f'str/{s}', gen, lambda r, v: ''.join(list(v)), evaluable=True, inject=True)


def _dom_words(rng):
    def gen(r):
        return f'w{r.randrange(100000):05d}'

    return Dom('words', gen, lambda r, v: ''.join(list(v)), evaluable=True, inject=True)


def _dom_bytes(rng):
    return Dom('bytes', lambda r: bytes(r.randrange(4) for _ in range(r.randrange(5))),
               evaluable=True, inject=True)


def _dom_tuple(rng):
    s = _spread(rng)

    def gen(r):
        if r.randrange(30) == 0:
            return ()
        return (r.randrange(s), 'xyz'[r.randrange(3)])[: 1 + r.randrange(2)]

    return Dom(f'tuple/{s}', gen, lambda r, v: tuple(list(v)), evaluable=True, inject=True)


def _dom_list(rng):
    s = _spread(rng)
    return Dom(f'list/{s}', lambda r: [r.randrange(s) for _ in range(r.randrange(3))],
               lambda r, v: list(v), hashable=False, evaluable=True, inject=True, immutable=False)


def _dom_obj(rng):
    s = _spread(rng)
    return Dom(f'obj/{s}', lambda r: Obj(r.randrange(s)), lambda r, v: Obj(v.rank), inject=True)


def _dom_loose(rng):
    s = _spread(rng)
    return Dom(f'loose/{s}', lambda r: Loose(r.randrange(s)), lambda r, v: Loose(v.rank), inject=True)


def _dom_lt(rng):
    s = _spread(rng)
    return Dom(f'ltonly/{s}', lambda r: LtOnly(r.randrange(s)), lambda r, v: LtOnly(v.rank), inject=True)


def _dom_big(rng):
    return Dom('bigint', lambda r: r.randrange(-(10**30), 10**30) >> r.choice((0, 60, 90, 97)),
               evaluable=True, inject=True)


PLAIN = [_dom_int] * 6 + [_dom_float, _dom_num, _dom_num, _dom_str, _dom_str, _dom_words, _dom_bytes,
                          _dom_tuple, _dom_list, _dom_obj, _dom_obj, _dom_loose, _dom_lt, _dom_big]


def plain_dom(rng, hashable=False, evaluable=False, uid=False, noltonly=False):
    while True:
        f = rng.choice(PLAIN)
        if uid and f not in (_dom_obj, _dom_loose, _dom_lt):
            continue
        if noltonly and f is _dom_lt:
            continue
        d = f(rng)
        if hashable and not d.hashable:
            continue
        if evaluable and not d.evaluable:
            continue
        return d


# -- keyed domains ------------------------------------------------------------


def keyed_dom(rng, hashable=False, inject=None, uid=False):
    """A domain with a key function.  inject=True: no ties between unequal values."""
    while True:
        s = _spread(rng)
        c = rng.randrange(27)

        def ints(r, s=s):
            return r.randrange(s) - s // 2

        def kp(r, s=s):
            return r.randrange(s) - s // 2

        if c == 0:
            d = Dom(f'int/{s}|neg', ints, _num_twin, key=k_neg, inject=True, keyprobe=kp)
        elif c == 1:
            d = Dom(f'int/{s}|identity', ints, _num_twin, key=k_identity, inject=True, keyprobe=kp)
        elif c == 2:
            d = Dom(f'int/{s}|mod7', ints, _num_twin, key=k_mod7, keyprobe=lambda r: r.randrange(-1, 9))
        elif c == 3:
            d = Dom(f'int/{s}|const', ints, _num_twin, key=k_const, keyprobe=lambda r: r.randrange(-1, 2))
        elif c == 4:
            dd = _dom_str(rng)
            d = Dom(dd.name + '|len', dd.gen, dd._twin, key=k_len, keyprobe=lambda r: r.randrange(-1, 5))
        elif c == 5:
            dd = _dom_str(rng)
            d = Dom(dd.name + '|lower', dd.gen, dd._twin, key=k_lower,
                    keyprobe=lambda r, g=dd.gen: g(r).lower())
        elif c == 6:
            d = Dom('complex|abs', lambda r: complex(r.randrange(4) * r.choice((1, -1)), 0) * r.choice((1, 1j)),
                    key=k_abs, orderable=False, keyprobe=lambda r: r.randrange(5))
        elif c in (7, 8, 9):
            t = rng.choice((1, 2, 5, 1000))
            d = Dom(f'rec/{s}/{t}|k', lambda r, s=s, t=t: Rec(r.randrange(s), r.randrange(t)),
                    lambda r, v: Rec(v.k, v.tag), key=k_rec, orderable=False, inject=(t == 1),
                    keyprobe=lambda r, s=s: r.randrange(-1, s + 1))
        elif c == 10:
            d = Dom(f'rec/{s}|negk', lambda r, s=s: Rec(r.randrange(s), r.randrange(3)),
                    lambda r, v: Rec(v.k, v.tag), key=k_negrec, orderable=False,
                    keyprobe=lambda r, s=s: -r.randrange(-1, s + 1))
        elif c == 11:
            d = Dom(f'urec/{s}|k', lambda r, s=s: URec(r.randrange(s), r.randrange(3)),
                    lambda r, v: URec(v.k, v.tag), key=k_rec, orderable=False, hashable=False,
                    keyprobe=lambda r, s=s: r.randrange(-1, s + 1))
        elif c == 12:
            d = Dom(f'int/{s}|pair', ints, _num_twin, key=k_pair, inject=True,
                    keyprobe=lambda r, s=s: (r.randrange(4), r.randrange(s) - s // 2))
        elif c == 13:
            d = Dom(f'int/{s}|list', ints, _num_twin, key=k_list, inject=True,
                    keyprobe=lambda r, s=s: [r.randrange(6), r.randrange(s) - s // 2])
        elif c == 14:
            d = Dom(f'int/{s}|ltonly', ints, _num_twin, key=k_lt, inject=True,
                    keyprobe=lambda r, s=s: LtOnly(r.randrange(s) - s // 2, 0))
        elif c == 15:
            d = Dom(f'int/{s}|lthalf', ints, _num_twin, key=k_lthalf,
                    keyprobe=lambda r, s=s: LtOnly((r.randrange(s) - s // 2) // 3, 0))
        elif c == 16:
            d = Dom(f'int+None/{s}|none', lambda r, s=s: None if r.randrange(6) == 0 else r.randrange(s),
                    key=k_none, orderable=False, inject=True,
                    keyprobe=lambda r, s=s: (True, r.randrange(s)))
        elif c == 17:
            d = Dom(f'int/{s}|sq', ints, _num_twin, key=k_sq, keyprobe=lambda r, s=s: r.randrange(s) ** 2)
        elif c == 18:
            d = Dom(f'int/{s}|str', ints, key=k_str, inject=True, keyprobe=lambda r, s=s: str(r.randrange(s)))
        elif c == 19:
            d = Dom(f'int/{s}|half', ints, _num_twin, key=k_half, keyprobe=lambda r, s=s: (r.randrange(s) - s // 2) // 2)
        elif c == 20:
            d = Dom(f'obj/{s}|identity', lambda r, s=s: Obj(r.randrange(s)), lambda r, v: Obj(v.rank),
                    key=k_identity, inject=True, keyprobe=lambda r, s=s: Obj(r.randrange(s), 0))
        elif c == 21:
            d = Dom(f'int/{s}|falsy', ints, _num_twin, key=k_falsy, inject=True, keyprobe=kp)
        elif c == 22:
            d = Dom(f'int/{s}|operator.neg', ints, _num_twin, key=operator.neg, inject=True, keyprobe=kp)
        elif c == 23:
            dd = _dom_str(rng)
            d = Dom(dd.name + '|str.lower', dd.gen, dd._twin, key=str.lower,
                    keyprobe=lambda r, g=dd.gen: g(r).lower())
        elif c == 24:
            d = Dom(f'int/{s}|abs', ints, _num_twin, key=abs, keyprobe=lambda r, s=s: r.randrange(s))
        elif c == 25:
            words = ('', 'a', 'b', 'a a', 'a  a', ' ', 'b a', 'a b', 'b ', 'c')
            d = Dom('words|split', lambda r: r.choice(words), lambda r, v: ''.join(list(v)), key=k_word,
                    keyprobe=lambda r: k_word(r.choice(words)))
        else:
            d = Dom(f'pairs/{s}|item', lambda r, s=s: [r.randrange(s), r.randrange(3)], lambda r, v: list(v),
                    key=k_item, hashable=False, immutable=False, keyprobe=lambda r, s=s: r.randrange(-1, s + 1))
        if hashable and not d.hashable:
            continue
        if inject is not None and d.inject != inject:
            continue
        if uid and not isinstance(d.gen(rng), (Rec, Obj)):
            continue
        return d


def any_dom(rng, keyed=0.4, **kw):
    if rng.random() < keyed:
        kw.pop('evaluable', None)
        kw.pop('noltonly', None)
        return keyed_dom(rng, **kw)
    kw.pop('inject', None)
    return plain_dom(rng, **kw)


def roomy(rng, n, make):
    """A domain from make(), mostly one with room for n different values."""
    for _ in range(12):
        dom = make()
        if n < 150 or rng.random() < 0.1:
            break
        if dom.hashable and len(set(dom.some(rng, n))) * 4 > n * 3:
            break
    return dom


class FalsyIterable:
    """Iterable like any other, though it counts as false."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def __bool__(self):
        return False


class OldSequence:
    """Iterable by __getitem__ alone."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, index):
        return self.items[index]


# -- arguments built anew each time an operation is applied -------------------


class Arg:
    """A recipe for an iterable argument: replayable, even for generators."""

    __slots__ = ('kind', 'items', 'key')

    KINDS = ('list', 'tuple', 'gen', 'iter', 'deque', 'falsy', 'oldseq')
    HASH_KINDS = KINDS + ('set', 'frozenset', 'dict', 'keys')

    def __init__(self, kind, items, key=None):
        self.kind = kind
        self.items = list(items)
        self.key = key

    def make(self):
        k, items = self.kind, self.items
        if k == 'list':
            return list(items)
        if k == 'tuple':
            return tuple(items)
        if k == 'gen':
            return (x for x in items)
        if k == 'iter':
            return iter(list(items))
        if k == 'deque':
            return deque(items)
        if k == 'sorted':
            return SortedList(items, key=self.key)
        if k == 'falsy':
            return FalsyIterable(list(items))
        if k == 'oldseq':
            return OldSequence(list(items))
        if k == 'set':
            return set(items)
        if k == 'frozenset':
            return frozenset(items)
        if k == 'dict':
            return dict.fromkeys(items)
        if k == 'keys':
            return dict.fromkeys(items).keys()
        raise AssertionError(k)

    def __repr__(self):
        return f'{self.kind}:{self.items!r}'


def real(x):
    return x.make() if isinstance(x, Arg) else x
