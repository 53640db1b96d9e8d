"""C25: the language and the standard library as consumers; they must see what a plain list or ordered dict shows them."""

import array
import bisect
import collections
import collections.abc as abc
import copy
import heapq
import itertools
import json
import operator
import random
import statistics
import types

from .. import work
from ..anyobj import KINDS, change, contents, identical, make, pick_world

ID = 'C25'
LEVEL = 'exploration'
TECHNIQUE = ('random histories; language constructs and standard-library functions fed with the container and with a '
             'plain list or dict of its contents in order, results compared by identity')
QUICK_CASES = 12000
RULE = ('a case takes a container of a random class through a history and, between changes, hands it to randomly '
        'chosen consumers (unpacking, matching, formatting, keyword calls, constructors, itertools, heapq, bisect, '
        'random, statistics, json, ChainMap, abstract base classes, ...); each result must be the one obtained from a plain '
        'list, or dict built in sorted order, of the contents; distinct by class, domain, size, load, consumers used')
ASSUMPTIONS = ['consumers are CPython 3.12 built-ins and standard library']
REQUIRED = ['oracle_checks', 'consumed', 'list', 'keylist', 'set', 'dict', 'changes', 'simple_domain', 'rich_domain',
            'use_unpack', 'use_match', 'use_json', 'use_kwargs', 'use_bisect', 'use_random', 'use_bool', 'use_abc',
            'use_hash', 'use_chainmap', 'use_setalgebra', 'use_heapq', 'falsy', 'view_uses']


def match_seq(x):
    match x:
        case []:
            return 'empty'
        case [a]:
            return ('one', a)
        case [a, *b, c]:
            return ('many', a, b, c)
    return 'no sequence'


def match_map(x, k):
    match x:
        case {'nosuchkey': _}:
            return 'bad'
        case {**rest}:
            return list(rest.items()), type(rest).__name__
    return 'no mapping'


def star(*a):
    return a


def kwargs(**kw):
    return kw


class Dummy:
    pass


# name -> (kinds of contents it needs, function).  'any': any values; 'num': numbers; 'str': strings.
ITER = {
    'list': ('any', list), 'tuple': ('any', tuple), 'unpack': ('any', lambda c: [*c]), 'star': ('any', lambda c: star(*c)),
    'deque': ('any', lambda c: list(collections.deque(c))), 'deque2': ('any', lambda c: list(collections.deque(c, 3))),
    'enumerate': ('any', lambda c: list(enumerate(c))), 'zip': ('any', lambda c: list(zip(c, c))),
    'zip2': ('any', lambda c: list(zip(c, range(3)))), 'map': ('any', lambda c: list(map(id, c))),
    'filter': ('any', lambda c: list(filter(None.__ne__, c))), 'chain': ('any', lambda c: list(itertools.chain(c, c))),
    'islice': ('any', lambda c: list(itertools.islice(c, 1, None, 2))),
    'cycle': ('any', lambda c: list(itertools.islice(itertools.cycle(c), 2 * len(c) + 1 if len(c) else 0))),
    'tee': ('any', lambda c: [list(i) for i in itertools.tee(c)]),
    'pairwise': ('any', lambda c: list(itertools.pairwise(c))),
    'batched': ('any', lambda c: list(itertools.batched(c, 3))),
    'groupby': ('any', lambda c: [list(g) for _, g in itertools.groupby(c, key=type)]),
    'extend': ('any', lambda c: (lambda x: (x.extend(c), x)[1])([0])),
    'splice': ('any', lambda c: (lambda x: (x.__setitem__(slice(1, 2), c), x)[1])([0, 1, 2])),
    'length_hint': ('any', operator.length_hint), 'len': ('any', len), 'any': ('any', lambda c: any(True for _ in c)),
    'reversed': ('any', lambda c: list(reversed(c))), 'next': ('any', lambda c: next(iter(c), 'none')),
    'for_else': ('any', lambda c: [x for x in c for _ in (0, 1)]),
    'bool': ('any', lambda c: (bool(c), not c, 1 if c else 2)),
    'itemtest': ('any', lambda c: [x in c for x in itertools.islice(c, 5)]),
    'contains': ('any', lambda c: operator.contains(c, next(iter(c), 'zz')) if len(c) else None),
    'sorted': ('le', sorted), 'min': ('le', lambda c: min(c, default=None)), 'max': ('le', lambda c: max(c, default=None)),
    'countOf': ('any', lambda c: operator.countOf(c, next(iter(c), 1))),
    'indexOf': ('any', lambda c: operator.indexOf(c, next(iter(c))) if len(c) else None),
    'starpair': ('any', lambda c: first_rest(c)),
    'heapq': ('le', lambda c: (heapq.nsmallest(3, c), heapq.nlargest(3, c))),
    'merge': ('le', lambda c: list(heapq.merge(sorted(c), sorted(c)))),
    'set': ('hash', lambda c: set(c)), 'frozenset': ('hash', lambda c: frozenset(c)),
    'counter': ('hash', lambda c: list(collections.Counter(c).items())),
    'fromkeys': ('hash', lambda c: list(dict.fromkeys(c, 0))),
    'sum': ('num', sum), 'mean': ('num', lambda c: statistics.fmean(c) if len(c) else None),
    'accumulate': ('num', lambda c: list(itertools.accumulate(c))),
    'array': ('num', lambda c: array.array('q', c)), 'prod': ('num', lambda c: sum(x * i for i, x in enumerate(c))),
    'join': ('str', lambda c: '-'.join(c)), 'print': ('str', lambda c: '{} {}'.format(*c, 1, 2)),
}
SEQ = {
    'match': ('any', match_seq), 'getitem': ('any', lambda c: operator.itemgetter(0, -1)(c) if len(c) else None),
    'itemslice': ('any', lambda c: list(operator.getitem(c, slice(1, -1)))),
    'bisect': ('le', lambda c: [f(c, c[len(c) // 2]) for f in (bisect.bisect_left, bisect.bisect_right)] if len(c) else 0),
    'random': ('any', lambda c: random.Random(5).choice(c) if len(c) else None),
    'random_choices': ('any', lambda c: random.Random(5).choices(c, k=4) if len(c) else None),
    'random_sample': ('any', lambda c: random.Random(5).sample(c, min(len(c), 3))),
    'rangeloop': ('any', lambda c: [c[i] for i in range(len(c))]),
}
SET_ONLY = {
    'setalgebra': ('any', lambda c: [set(c) | c == set(c), set(c) & c == set(c), not set(c) - c, not (set(c) ^ c),
                                     frozenset(c) == c, c == frozenset(c), set(c) <= c, c >= set(c), set(c).issubset(c),
                                     set(c).isdisjoint(c) == (not c), set(c).union(c) == set(c),
                                     set(c).intersection(c) == set(c)]),
    'setupdate': ('any', lambda c: (lambda s: (s.update(c), s)[1])(set())),
    'ior': ('any', lambda c: ior(c)),
}
MAP = {
    'dict': ('any', lambda d: list(dict(d).items())), 'display': ('any', lambda d: list({**d}.items())),
    'display2': ('any', lambda d: list({**{}, **d, **d}.items())),
    'update': ('any', lambda d: (lambda x: (x.update(d), list(x.items()))[1])({})),
    'ior': ('any', lambda d: (lambda x: list(operator.ior(x, d).items()))({})),
    'ordered': ('any', lambda d: list(collections.OrderedDict(d).items())),
    'defaultdict': ('any', lambda d: list(collections.defaultdict(int, d).items())),
    'chainmap': ('any', lambda d: (list(collections.ChainMap({}, d).items()), len(collections.ChainMap(d, d)))),
    'userdict': ('any', lambda d: list(collections.UserDict(d).items())),
    'proxy': ('any', lambda d: (list(types.MappingProxyType(d)), list(types.MappingProxyType(d).items()),
                                list(reversed(types.MappingProxyType(d))))),
    'matchmap': ('any', lambda d: match_map(d, None)), 'keys': ('any', lambda d: list(d.keys())),
    'values': ('any', lambda d: list(d.values())), 'items': ('any', lambda d: list(d.items())),
    'starkeys': ('any', lambda d: star(*d.items())), 'eq': ('any', lambda d: (d == dict(d.items()), dict(d.items()) == d, d != {})),
    'mapitem': ('any', lambda d: [d[k] for k in d]), 'itemgetter': ('any', lambda d: operator.itemgetter(*list(d)[:2])(d) if len(d) else 0),
    'zipitems': ('any', lambda d: list(zip(d, d.values(), d.items()))), 'minitem': ('any', lambda d: next(iter(d.items()), None)),
    'dictcomp': ('any', lambda d: list({k: v for k, v in d.items()}.items())),
    'copyof': ('any', lambda d: list(copy.copy(d).items())), 'maxval': ('any', lambda d: [k for k, v in d.items() if v is d[k]]),
    'json': ('str', lambda d: json.dumps(d, default=str)), 'json2': ('str', lambda d: json.dumps({'in': d, 'l': [d]}, default=str, indent=1)),
    'kwargs': ('str', lambda d: list(kwargs(**d).items())), 'format_map': ('str', lambda d: ''.join('{%s}' % k for k in d if k.isalnum()).format_map(d) if len(d) else 0),
    'percent': ('str', lambda d: '|'.join('%%(%s)s' % k for k in d if k.isalnum()) % d if len(d) else 0),
    'namespace': ('str', lambda d: list(vars(types.SimpleNamespace(**d)).items())),
    'attrs': ('str', lambda d: (lambda o: (o.__dict__.update(d), list(vars(o).items()))[1])(Dummy())),
    'type': ('str', lambda d: [k for k in vars(type('T', (), {**d})) if k in d]),
}


def first_rest(c):
    if not len(c):
        return None
    a, *b = c
    return a, b


def ior(c):
    s = set()
    s |= set(c)
    t = set(c)
    t -= set(c)
    return s, t


ABCS = {
    'list': (abc.MutableSequence, abc.Sequence, abc.Reversible, abc.Collection, abc.Sized, abc.Iterable, abc.Container),
    'set': (abc.MutableSet, abc.Set, abc.Sequence, abc.Reversible, abc.Collection),
    'dict': (dict, abc.MutableMapping, abc.Mapping, abc.Reversible, abc.Collection),
}
ABCS['keylist'] = ABCS['list']


def same(a, b, deep=0):
    """The same objects in containers of the same builtin types."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, deep + 1) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return a == b
    return isinstance(a, (int, float, str, bytes, array.array)) and a == b


def usable(need, dom_kind, hashable, has_le):
    return (need == 'any' or need == 'le' and has_le or need == 'hash' and hashable or need == dom_kind)


NOT_VIEWS = {'map', 'json', 'join', 'print', 'set', 'frozenset', 'counter', 'fromkeys', 'countOf'}


def views(ctx, rng, c, pairs, dk, dom, has_le):
    """The same consumers, on the views of a dict."""
    which = rng.choice(('keys', 'values', 'items'))
    v = getattr(c, which)()
    ref = [p[0] for p in pairs] if which == 'keys' else [p[1] for p in pairs] if which == 'values' else pairs
    ok = [n for n, (need, _) in VIEW_USES.items()
          if n not in NOT_VIEWS and (need == 'any' or which == 'keys' and usable(need, dk, dom.hashable, has_le))]
    if dom.key is not None:
        ok.remove('bisect') if 'bisect' in ok else None
    for name in rng.sample(sorted(ok), 3) + ['bool']:
        ctx.n('view_uses')
        f = VIEW_USES[name][1]
        got, want = work.outcome_of(lambda: f(v)), work.outcome_of(lambda: f(ref))
        ctx.check(got[0] == want[0] and (got[0] == 'exc' or same(got[1], want[1])),
                  f'{name} of the {which} view: a plain list gives something else', got, want)


VIEW_USES = {**ITER, **SEQ}
FALSY = (0, 0.0, None, '', (), False, frozenset(), b'', 0j)


def falsy(ctx, rng):
    """One stored value, and that one false."""
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    cls = rng.choice(KINDS[kind])
    v = rng.choice(FALSY)
    c = cls([(v, v)]) if kind == 'dict' else cls([v], key=id) if kind == 'keylist' else cls([v])
    ctx.n('falsy')
    ctx.log('one value', cls.__name__, v)
    ctx.shape('falsy', cls.__name__, repr(v))
    for x in (c,) + ((c.keys(), c.values(), c.items()) if kind == 'dict' else ()):
        ctx.check(bool(x) is True and len(x) == 1 and len(list(x)) == 1, f'{type(x).__name__} of one value', x)
        ctx.check(any(True for _ in x) and len([*x]) == 1 and next(reversed(x), 5) == next(iter(x), 6), 'read out', x)
    if kind == 'dict':
        c.popitem()
    else:
        c.pop()
    for x in (c,) + ((c.keys(), c.values(), c.items()) if kind == 'dict' else ()):
        ctx.check(bool(x) is False and len(x) == 0 and not list(x), f'{type(x).__name__} of no value', x)


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.06:
        falsy(ctx, rng)
        return
    kind, cls, dom = pick_world(rng)
    prof = work.profile(rng, 0.5, ('tiny', 'tiny', 'small', 'small', 'medium', 'wide'), rare=0.004)
    ctx.n(kind)
    load = prof.load
    c = make(rng, kind, cls, dom, load, dom.some(rng, prof.n))
    table = dict(ITER)
    if kind == 'dict':
        table.update(MAP)
    else:
        table.update(SEQ)
    if kind == 'set':
        table.update(SET_ONLY)
    names = sorted(table)
    ctx.log('world', kind, cls.__name__, repr(dom), f'n={len(c)}')
    used = []
    for _ in range(min(prof.ops, 14)):
        pairs = contents(kind, c)
        ref = dict(pairs) if kind == 'dict' else list(pairs)
        vs = list(ref)
        dk = 'num' if vs and all(type(v) is int for v in vs) else 'str' if vs and all(type(v) is str for v in vs) else 'other'
        ctx.n('simple_domain' if dk != 'other' else 'rich_domain')
        has_le = dk != 'other'
        usable_names = [n for n in names if usable(table[n][0], dk, dom.hashable, has_le)]
        special = [n for n in usable_names if table[n][0] == dk]
        name = rng.choice(special) if special and rng.random() < 0.4 else rng.choice(usable_names)
        if name in ('bisect', 'merge') and dom.key is not None:
            name = 'list'
        ctx.n('consumed')
        ctx.n('use_' + name)
        used.append(name)
        ctx.log('consume', name)
        f = table[name][1]
        if kind == 'dict' and rng.random() < 0.35:
            views(ctx, rng, c, pairs, dk, dom, has_le)
        if kind == 'set' and name in SET_ONLY:
            got = f(c)
            want = f(set(vs))
            ctx.check(same(got, want), f'{name}: differs from a set of the same members', got, want)
        else:
            got = work.outcome_of(lambda: f(c))
            want = work.outcome_of(lambda: f(ref))
            if got[0] == 'exc' and want[0] == 'exc':
                ctx.eq(type(got[1]), type(want[1]), f'{name}: exception')
            else:
                ctx.check(got[0] == want[0] and same(got[1], want[1]),
                          f'{name}: a plain {type(ref).__name__} of the same contents gives something else', got, want)
        if rng.random() < 0.3:
            ctx.n('use_abc')
            for a in ABCS[kind]:
                ctx.check(isinstance(c, a), f'not an instance of {a.__name__}')
            alias = type(c)[int]
            ctx.check(getattr(alias, '__origin__', None) is type(c), 'no generic alias', alias)
            ctx.check(alias.__args__ == (int,), 'generic alias of something else', alias)
            ctx.check(not isinstance(c, abc.Hashable), 'claims to be hashable')
            ctx.n('use_hash')
            tag, e = work.outcome_of(lambda: hash(c))
            ctx.check(tag == 'exc' and type(e) is TypeError, 'a mutable container hashes', e)
            if kind == 'dict':
                for v, a in ((c.keys(), abc.KeysView), (c.items(), abc.ItemsView), (c.values(), abc.ValuesView)):
                    ctx.check(isinstance(v, a) and isinstance(v, abc.Sequence), f'view is no {a.__name__}')
        ctx.check(identical(kind, pairs, contents(kind, c)), f'{name} changed the container')
        for _ in range(rng.choice((0, 1, 1, 3))):
            ctx.n('changes')
            change(rng, kind, c, dom)
    ctx.shape(kind, cls.__name__, dom.name, prof.n, load, tuple(used))
