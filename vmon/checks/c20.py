"""C20: every way to derive a container, from every side, checked for class, key function, order and function."""

import copy
import pickle
from collections import ChainMap, UserDict
from operator import attrgetter, itemgetter, neg
from types import MappingProxyType

from .. import work
from ..anyobj import SubKeyList, SubList, change, contents, sane
from ..dictwork import Val
from ..target import (
    MidList, SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet,
)
from ..values import Arg, Dom, Rec, any_dom, k_abs, keyed_dom, plain_dom

ID = 'C20'
LEVEL = 'exploration'
TECHNIQUE = ('every deriving operation on containers with random histories; class, key function, order and contents '
             'of the result compared with the source and with a plain model, the result then driven on')
QUICK_CASES = 26000
RULE = ('a case builds a container of a random class (user subclasses included, half of the keyed ones over values '
        'that only the key function can order), chains random derivations (copies, pickles, concatenations, '
        'repetitions, set operators and methods, dict merges, from either side and with operands of many types) and '
        'judges every result; distinct by class, domain, size and derivations')
ASSUMPTIONS = ['subclasses keep the constructor signature of their base class', 'a pickled key function is importable',
               'between two sorted containers the left operand decides (not tried where the right one is of a subclass '
               'that overrides the operator, which Python asks first)']
REQUIRED = ['oracle_checks', 'derivations', 'subclass', 'unorderable', 'reflected', 'in_place', 'pickled', 'list',
            'keylist', 'set', 'dict', 'constructed', 'empty_source', 'chained']


class NegList(SortedKeyList):
    """A subclass with its own default key."""

    def __init__(self, iterable=None, key=neg):
        self.made = True
        super().__init__(iterable, key)

    def twice(self):
        return len(self) * 2


class DeepSet(SubSet):
    def twice(self):
        return len(self) * 2


class DeepDict(SubDict):
    def twice(self):
        return len(self) * 2


class InitList(SortedList):
    """A subclass with a constructor (of the same signature) and state of its own."""

    def __init__(self, iterable=None, key=None):
        self.tag = 'list'
        super().__init__(iterable, key)

    def twice(self):
        return len(self) * 2 if self.tag == 'list' else None


class InitSet(SortedSet):
    def __init__(self, iterable=None, key=None):
        self.tag = 'set'
        super().__init__(iterable, key)

    def twice(self):
        return len(self) * 2 if self.tag == 'set' else None


class InitDict(SortedDict):
    def __init__(self, *args, **kwargs):
        self.tag = 'dict'
        super().__init__(*args, **kwargs)

    def twice(self):
        return len(self) * 2 if self.tag == 'dict' else None


class NewSet(SortedSet):
    """A subclass that watches its own creation."""

    def __new__(cls, iterable=None, key=None):
        self = super().__new__(cls)
        return self

    def add(self, value):
        super().add(value)

    def twice(self):
        return len(self) * 2


CLASSES = {'list': (SortedList, SmallList, MidList, SubList, InitList),
           'keylist': (SortedKeyList, SortedKeyList, SmallKeyList, SubKeyList, NegList),
           'set': (SortedSet, SortedSet, SubSet, DeepSet, InitSet, NewSet),
           'dict': (SortedDict, SortedDict, SubDict, DeepDict, InitDict)}
BASES = {SortedList, SortedKeyList, SortedSet, SortedDict}


def pick(rng, kind):
    """(class, domain, whether the key pickles)"""
    cls = rng.choice(CLASSES[kind])
    if kind == 'list':
        return cls, plain_dom(rng), True
    c = rng.randrange(10)
    s = rng.choice((4, 40, 400))
    if c == 0:
        return cls, Dom('rec|lambda', lambda r: Rec(r.randrange(s), r.randrange(2)), key=lambda v: -v.k, orderable=False), False
    if c == 1:
        return cls, Dom('int|neg', lambda r: r.randrange(s), key=neg, inject=True), True
    if c == 2:
        return cls, Dom('rec|attrgetter', lambda r: Rec(r.randrange(s), r.randrange(2)), key=attrgetter('k'),
                        orderable=False), False
    if c == 3:
        return cls, Dom('complex|abs', lambda r: complex(r.randrange(s), 0) * r.choice((1, 1j, -1)), key=abs,
                        orderable=False), True
    if c == 4:
        return cls, Dom('pair|itemgetter', lambda r: (r.choice((None, 1, 'x')), r.randrange(s)), key=itemgetter(1),
                        orderable=False), False
    if kind == 'keylist':
        return cls, keyed_dom(rng), True
    return cls, any_dom(rng, keyed=0.75, hashable=True), True


def blank(kind, cls, key):
    if kind == 'list':
        return cls()
    return cls(key) if kind == 'dict' else cls(key=key)


def ordered(ctx, kind, c, dom, what):
    keys = work.keys_of(list(c), dom.key)
    ctx.check(work.is_ascending(keys), f'{what}: not in key order', list(c))


def multiset_eq(a, b):
    b = list(b)
    if len(a) != len(b):
        return False
    ids = {}
    for x in b:
        ids[id(x)] = ids.get(id(x), 0) + 1
    for x in a:
        if not ids.get(id(x)):
            break
        ids[id(x)] -= 1
    else:
        return True
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return True


def other_key(rng, dom):
    """A key function that is not the source's but can order any of its values."""
    return rng.choice((dom.key, hash if dom.hashable else id, None if dom.orderable else dom.key))


def operand(rng, kind, dom, n):
    k = work.pick_bulk_size(rng, min(n, 60))
    vals = dom.some(rng, k)
    t = rng.randrange(9)
    if t == 8 and kind == 'keylist':
        return SortedKeyList(vals, key=id)
    if t == 0:
        return SortedSet(vals, key=dom.key) if dom.hashable else vals
    if t == 1:
        return SortedList(vals, key=dom.key)
    if t == 3 and dom.hashable:
        return SubSet(vals, key=dom.key)
    return Arg(rng.choice(Arg.HASH_KINDS if dom.hashable else Arg.KINDS), vals).make()


def set_like(rng, dom, n):
    vals = dom.some(rng, work.pick_bulk_size(rng, min(n, 60)))
    return rng.choice((set, frozenset, list, tuple))(vals)


def keyed_left(rng, dom, vals, classes):
    """A container with a key function of its own that leaves the operator to the right operand."""
    cls = rng.choice(classes)
    key = other_key(rng, dom) or hash
    return cls(key, dict.fromkeys(vals)) if cls is SortedDict else cls(vals, key=key)


def model_of(x):
    return list(x)


def derive_list(ctx, rng, c, dom):
    """(what, result, expected values)"""
    vals = list(c)
    w = rng.choice(('concat', 'concat', 'rconcat', 'mul', 'rmul', 'iadd', 'imul', 'both'))
    if w == 'concat':
        x = operand(rng, 'list' if dom.key is None else 'keylist', dom, len(vals))
        if hasattr(x, '__next__'):
            x = list(x)
        m = list(x)
        return 'c + ' + type(x).__name__, c + x, vals + m
    if w == 'rconcat':
        x = rng.choice((list, tuple))(dom.some(rng, rng.randrange(5)))
        ctx.n('reflected')
        if dom.hashable and rng.random() < 0.3:
            x = keyed_left(rng, dom, x, (SortedSet, SubSet, SortedDict))
        return f'{type(x).__name__} + c', x + c, vals + list(x)
    k = rng.choice((0, 1, 2, 3, -1)) if len(vals) < 400 else rng.choice((0, 1))
    if w == 'mul':
        return f'c * {k}', c * k, vals * k
    if w == 'rmul':
        ctx.n('reflected')
        return f'{k} * c', k * c, vals * k
    d = c.copy()
    ctx.n('in_place')
    if w == 'iadd':
        x = dom.some(rng, rng.randrange(6))
        e = d
        e += x
        ctx.check(e is d, 'c += x made another object')
        return 'c += x', e, vals + x
    if w == 'imul':
        e = d
        e *= k
        ctx.check(e is d, 'c *= n made another object')
        return f'c *= {k}', e, vals * k
    return 'c + c', c + c, vals + vals


def derive_set(ctx, rng, c, dom):
    vals = set(c)
    name = rng.choice(('union', 'intersection', 'difference', 'symmetric_difference'))
    sym = {'union': '__or__', 'intersection': '__and__', 'difference': '__sub__', 'symmetric_difference': '__xor__'}[name]
    w = rng.choice(('op', 'op', 'rop', 'rop', 'method', 'inplace'))
    import operator as o
    f = {'union': o.or_, 'intersection': o.and_, 'difference': o.sub, 'symmetric_difference': o.xor}[name]
    if w == 'rop':
        x = set_like(rng, dom, len(vals))
        ctx.n('reflected')
        if rng.random() < 0.4:
            x = keyed_left(rng, dom, x, (SortedKeyList, SubKeyList, SortedDict))
        return f'{type(x).__name__} {sym} c', f(x, c), f(set(x), vals)
    if w == 'method':
        k = 1 if name == 'symmetric_difference' else rng.choice((0, 1, 1, 2, 3))
        xs = [set_like(rng, dom, len(vals)) for _ in range(k)]
        m = set(vals)
        for x in xs:
            m = f(m, set(x))
        return f'c.{name}({k} iterables)', getattr(c, name)(*xs), m
    x = rng.choice((lambda: set_like(rng, dom, len(vals)), lambda: SortedSet(dom.some(rng, 5), key=other_key(rng, dom)),
                    lambda: SubSet(dom.some(rng, 5), key=other_key(rng, dom)), lambda: dict.fromkeys(dom.some(rng, 3)).keys()))()
    m = f(set(vals), set(x))
    if w == 'op':
        return f'c {sym} {type(x).__name__}', f(c, x), m
    d = e = c.copy()
    e = {'union': o.ior, 'intersection': o.iand, 'difference': o.isub, 'symmetric_difference': o.ixor}[name](e, x)
    ctx.n('in_place')
    ctx.check(e is d, f'c {sym}= x made another object')
    return f'c {sym}= {type(x).__name__}', e, m


class OddMapping(UserDict):
    """A mapping with attributes of its own, leaving | to the other side."""

    key = _key = id
    def __or__(self, other):
        return NotImplemented

    __ror__ = __or__


def derive_dict(ctx, rng, c, dom):
    items = {k: dict.__getitem__(c, k) for k in c}
    other = {v: Val(rng.randrange(99)) for v in dom.some(rng, work.pick_bulk_size(rng, min(60, len(items))))}
    w = rng.choice(('or', 'or', 'ror', 'ror', 'ior', 'sorted', 'odd', 'fromkeys'))
    if w == 'or':
        return 'c | dict', c | other, {**items, **other}
    if w == 'ror':
        ctx.n('reflected')
        return 'dict | c', other | c, {**other, **items}
    if w == 'odd':
        x = rng.choice((OddMapping, MappingProxyType, ChainMap))(other)
        if type(x) is OddMapping and rng.random() < 0.6:
            ctx.n('reflected')
            return 'mapping | c', x | c, {**other, **items}
        return f'c | {type(x).__name__}', c | x, {**items, **other}
    if w == 'sorted':
        x = rng.choice((SortedDict, SubDict))(other_key(rng, dom), other)
        return 'c | ' + type(x).__name__, c | x, {**items, **other}
    if w == 'fromkeys':
        d = type(c).fromkeys([3, 1, 2], 'v')
        ctx.check(type(d) is type(c) and d.key is None and list(d) == [1, 2, 3] and d == dict.fromkeys([1, 2, 3], 'v'),
                  f'{type(c).__name__}.fromkeys', d)
        return None
    d = e = c.copy()
    e |= other
    ctx.n('in_place')
    ctx.check(e is d, 'c |= dict made another object')
    return 'c |= dict', e, {**items, **other}


def derive_copy(ctx, rng, kind, c, pickles):
    want = {k: dict.__getitem__(c, k) for k in c} if kind == 'dict' else set(c) if kind == 'set' else list(c)
    w = rng.choice(('copy', 'copy.copy', 'deepcopy', 'pickle', 'slice'))
    if w == 'copy':
        return 'c.copy()', c.copy(), want
    if w == 'copy.copy' or not pickles:
        return 'copy.copy(c)', copy.copy(c), want
    if w == 'deepcopy':
        return 'copy.deepcopy(c)', copy.deepcopy(c), want
    p = rng.randrange(pickle.HIGHEST_PROTOCOL + 1)
    ctx.n('pickled')
    return f'unpickled, protocol {p}', pickle.loads(pickle.dumps(c, p)), want


def judge(ctx, kind, src, d, want, dom, what):
    ctx.n('derivations')
    name = type(src).__name__
    ctx.check(type(d) is type(src), f'{what}: class of the result, source is a {name}', type(d))
    ctx.check(d.key is src.key, f'{what}: key function of the result / of the source', d.key, src.key)
    if kind == 'dict':
        ctx.check(len(d) == len(want) and dict.__eq__(d, want), f'{what}: items / expected', d, want)
    elif kind == 'set':
        ctx.check(len(d) == len(want) and set(d) == want, f'{what}: members / expected', d, want)
    else:
        ctx.check(multiset_eq(list(d), want), f'{what}: values / expected', d, want)
    ordered(ctx, kind, d, dom, what)
    if hasattr(src, 'twice'):
        ctx.check(d.twice() == 2 * len(d), f'{what}: the subclass method')


def constructed(ctx, rng):
    """The constructors' side of the promise."""
    ctx.n('constructed')
    dom = keyed_dom(rng)
    vals = dom.some(rng, rng.randrange(12))
    key = dom.key
    for c in (SortedList(key=key), SortedList(vals, key=key), SortedList(vals, key), SortedList(None, key),
              SortedList(iter(vals), key=key), SortedKeyList(vals, key=key), SortedKeyList(vals, key)):
        ctx.check(type(c) is SortedKeyList, 'class of a sorted list with key', type(c))
        ctx.check(isinstance(c, SortedList), 'not a SortedList')
        ctx.check(c.key is key, 'key attribute', c.key, key)
        ordered(ctx, 'keylist', c, dom, 'constructed')
    ctx.check(type(SortedList()) is SortedList and SortedList().key is None, 'SortedList without key')
    ctx.check(type(SortedList([2, 1], key=None)) is SortedList, 'SortedList(key=None)')
    ctx.check(NegList([1, 3, 2]).key is neg and list(NegList([1, 3, 2])) == [3, 2, 1], 'subclass default key')
    if dom.hashable:
        ctx.check(SortedSet(vals, key=key).key is key and SortedSet(vals, key).key is key and SortedSet().key is None,
                  'SortedSet.key')
        ctx.check(SortedDict(key).key is key and SortedDict(key, dict.fromkeys(vals)).key is key and
                  SortedDict().key is None and SortedDict(None, {}).key is None, 'SortedDict.key')
        ordered(ctx, 'set', SortedSet(vals, key=key), dom, 'constructed')
        ordered(ctx, 'dict', SortedDict(key, dict.fromkeys(vals)), dom, 'constructed')


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.1:
        constructed(ctx, rng)
    kind = rng.choice(('list', 'keylist', 'keylist', 'set', 'set', 'dict', 'dict'))
    cls, dom, pickles = pick(rng, kind)
    ctx.n(kind)
    if cls not in BASES:
        ctx.n('subclass')
    if not dom.orderable:
        ctx.n('unorderable')
    prof = work.profile(rng, only=('tiny', 'small', 'small', 'medium'), rare=0.004)
    n = prof.n if rng.random() < 0.92 else 0
    if not n:
        ctx.n('empty_source')
    c = blank(kind, cls, dom.key)
    if prof.load:
        c._reset(prof.load)
    vals = dom.some(rng, n)
    c.update([(v, Val(i)) for i, v in enumerate(vals)] if kind == 'dict' else vals)
    for _ in range(rng.randrange(4)):
        change(rng, kind, c, dom)
    ctx.log('world', cls.__name__, repr(dom), f'n={n}', contents(kind, c))
    done = []
    for step in range(rng.randrange(2, 9)):
        before = contents(kind, c)
        if rng.random() < 0.3:
            r = derive_copy(ctx, rng, kind, c, pickles)
        else:
            r = {'list': derive_list, 'keylist': derive_list, 'set': derive_set, 'dict': derive_dict}[kind](ctx, rng, c, dom)
        if r is None:
            continue
        what, d, want = r
        ctx.log(what)
        done.append(what)
        judge(ctx, kind, c, d, want, dom, f'{what} of {cls.__name__} with key {getattr(dom.key, "__name__", dom.key)}')
        ctx.check(len(before) == len(c), f'{what} changed its source')
        if rng.random() < 0.6 and len(d) < 1500:
            c = d
            if rng.random() < 0.6:
                change(rng, kind, c, dom)
            ctx.n('chained')
            if rng.random() < 0.4:
                sane(ctx, kind, c, dom, 'derived by ' + what)
                ordered(ctx, kind, c, dom, 'derived by ' + what)
    ctx.shape(kind, cls.__name__, dom.name, n, tuple(done))
