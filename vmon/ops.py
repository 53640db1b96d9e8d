"""Operations on every container class as data, with results made comparable."""

from . import work
from .dictwork import Val, update_size as dict_update_size
from .setwork import update_size as set_update_size
from .target import SortedDict, SortedList, SortedSet
from .values import Arg, real


class Const:
    """An argument taken literally."""

    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'{self.v!r}'


LISTS = ('add', 'add', 'add', 'add', 'update', 'update', 'remove', 'discard', 'discard', 'pop', 'poplast', 'delitem',
         'delitem', 'delslice', 'iadd', 'imul', 'clear', 'getitem', 'getitem', 'getslice', 'bisect_left',
         'bisect_right', 'bisect', 'count', 'index', 'index', 'contains', 'irange', 'islice', 'iter', 'reversed',
         'len', 'repr', 'copy', 'concat', 'rconcat', 'mul', 'rmul', 'cmp', 'bad')
SETS = ('add', 'add', 'add', 'add', 'remove', 'discard', 'discard', 'pop', 'poplast', 'delitem', 'delitem',
        'delslice', 'update', 'update', 'ior', 'iand', 'isub', 'isub', 'ixor', 'binop', 'binop', 'method',
        'method', 'method_update', 'clear', 'getitem', 'getitem', 'getslice', 'bisect_left', 'bisect_right',
        'bisect', 'count', 'index', 'index', 'contains', 'irange', 'islice', 'iter', 'reversed', 'len', 'repr',
        'copy', 'cmp', 'test', 'bad')
DICTS = ('set', 'set', 'set', 'set', 'get', 'getkey', 'delkey', 'delkey', 'popkey', 'popkey', 'popitem', 'popitem',
         'peekitem', 'peekitem', 'setdefault', 'setdefault', 'update', 'update', 'ior', 'or', 'ror', 'copy', 'clear',
         'contains', 'view', 'view', 'viewslice', 'viewdel', 'viewdel', 'viewset', 'viewread', 'index', 'index',
         'bisect_left', 'bisect_right', 'bisect', 'irange', 'islice', 'iter', 'reversed', 'len', 'repr', 'cmp',
         'fromkeys', 'bad')
KEYED = ('bisect_key_left', 'bisect_key_right', 'bisect_key', 'irange_key')
SAME_AS_LIST = {'getitem', 'getslice', 'bisect_left', 'bisect_right', 'bisect', 'count', 'contains', 'irange', 'islice',
                'iter', 'reversed', 'len', 'repr', 'copy', 'bisect_key_left', 'bisect_key_right', 'bisect_key',
                'irange_key', 'pop', 'poplast', 'delitem', 'delslice', 'clear', 'add', 'remove', 'discard', 'index'}
NAMES = {'list': LISTS, 'keylist': LISTS + KEYED, 'set': SETS, 'dict': DICTS}


def names_for(kind, dom):
    out = NAMES[kind]
    if kind in ('set', 'dict') and dom.key is not None:
        out = out + tuple(k for k in KEYED)
    return out


def hash_arg(rng, dom, ref, k, present=0.6):
    return Arg(rng.choice(Arg.HASH_KINDS), [work.pick_value(rng, dom, ref, present) for _ in range(k)])


def gen(rng, kind, dom, c, ref, name, oob=0.08):
    """One operation as a tuple of plain data (c only steers indexes)."""
    n = len(ref)
    if name == 'bad':
        return ('bad', rng.randrange(4))
    if name == 'cmp':
        return ('cmp', rng.choice(('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')),
                Const(mutate_seq(rng, dom, ref)))
    if kind in ('list', 'keylist'):
        if name in ('concat', 'rconcat'):
            return (name, work.pick_iterable(rng, dom, n)) if name == 'concat' else (name, Const(dom.some(rng, 3)))
        if name in ('mul', 'rmul'):
            return (name, rng.choice((0, 1, 2, 3)) if n < 1500 else 1)
        return work.gen_list_op(rng, dom, c, ref, name, oob)
    if name in ('update', 'ior', 'iand', 'isub', 'ixor') and kind == 'set':
        k = set_update_size(rng, n)
        if name == 'update' and rng.random() < 0.4:
            return ('update', hash_arg(rng, dom, ref, k // 2), hash_arg(rng, dom, ref, k - k // 2))
        if name == 'iand' and rng.random() < 0.7:
            return (name, Arg('list', [v for v in ref if rng.random() < 0.9]))
        return (name, hash_arg(rng, dom, ref, k))
    if name == 'binop':
        return ('binop', rng.choice(('or', 'and', 'sub', 'xor', 'ror', 'rand', 'rsub', 'rxor')),
                Arg('set', hash_arg(rng, dom, ref, set_update_size(rng, n)).items))
    if name == 'method':
        m = rng.choice(('union', 'intersection', 'difference', 'symmetric_difference'))
        k = 1 if m == 'symmetric_difference' else rng.choice((0, 1, 1, 2, 3))
        return ('call', m) + tuple(hash_arg(rng, dom, ref, set_update_size(rng, n)) for _ in range(k))
    if name == 'method_update':
        m = rng.choice(('intersection_update', 'difference_update', 'symmetric_difference_update', 'difference_update'))
        k = 1 if m == 'symmetric_difference_update' else rng.choice((0, 1, 1, 2))
        if m == 'intersection_update':
            return ('call', m, Arg('set', [v for v in ref if rng.random() < 0.9]))
        return ('call', m) + tuple(hash_arg(rng, dom, ref, set_update_size(rng, n)) for _ in range(k))
    if name == 'test':
        return ('call', rng.choice(('isdisjoint', 'issubset', 'issuperset')), hash_arg(rng, dom, ref, rng.randrange(4)))
    if name in SAME_AS_LIST and kind == 'set':
        return work.gen_list_op(rng, dom, c, ref, name, oob)
    # dicts
    if name == 'set':
        return ('set', work.pick_value(rng, dom, ref, 0.4), Val(rng.randrange(1000)))
    if name in ('get', 'getkey', 'delkey'):
        return (name, work.pick_value(rng, dom, ref, 0.9 if name == 'delkey' else 0.7))
    if name == 'popkey':
        return ('popkey', work.pick_value(rng, dom, ref, 0.7)) + ((Const('default'),) if rng.random() < 0.5 else ())
    if name == 'popitem':
        return ('popitem',) + ((work.pick_index(rng, c, n, oob),) if rng.random() < 0.7 else ())
    if name == 'peekitem':
        return ('peekitem',) + ((work.pick_index(rng, c, n, oob),) if rng.random() < 0.8 else ())
    if name == 'setdefault':
        return ('setdefault', work.pick_value(rng, dom, ref, 0.5)) + (
            (Val(rng.randrange(1000)),) if rng.random() < 0.8 else ())
    if name in ('update', 'ior', 'or', 'ror'):
        pairs = [(work.pick_value(rng, dom, ref, 0.4), Val(rng.randrange(1000)))
                 for _ in range(dict_update_size(rng, n))]
        form = 'dict' if name != 'update' and name != 'ior' else rng.choice(('pairs', 'dict', 'gen'))
        return (name, form, Const(pairs))
    if name in ('view', 'viewdel'):
        w = rng.choice(('keys', 'items', 'values'))
        if name == 'viewdel' and rng.random() < 0.5:
            return (name, w, work.pick_slice(rng, c, n))
        return (name, w, work.pick_index(rng, c, n, oob))
    if name == 'viewslice':
        return ('view', rng.choice(('keys', 'items', 'values')), work.pick_slice(rng, c, n))
    if name == 'viewset':
        return ('viewset', rng.choice(('or', 'and', 'sub', 'xor', 'ror', 'rand', 'rsub', 'rxor', 'eq', 'le', 'lt', 'ge', 'gt', 'isdisjoint')),
                hash_arg(rng, dom, ref, rng.randrange(5)))
    if name == 'viewread':
        return ('viewread', rng.choice(('keys', 'items', 'values')), rng.choice(('len', 'iter', 'reversed', 'repr')))
    if name == 'fromkeys':
        return ('fromkeys', Arg('list', dom.some(rng, 3)))
    if name == 'index':
        v = work.pick_value(rng, dom, ref, 0.8)
        return ('index', v) if rng.random() < 0.6 else ('index', v, work.pick_bound(rng, n), work.pick_bound(rng, n))
    if name in SAME_AS_LIST:
        return work.gen_list_op(rng, dom, c, ref, name, oob)
    raise AssertionError(name)


def mutate_seq(rng, dom, ref):
    out = list(ref)
    c = rng.randrange(4)
    if c == 0 and out:
        out.pop(rng.randrange(len(out)))
    elif c == 1 and out:
        i = rng.randrange(len(out))
        out[i] = dom.gen(rng)
    elif c == 2:
        out.append(dom.gen(rng))
    return out


def broken():
    raise ZeroDivisionError('broken')
    yield


BINARY = {
    'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'sub': lambda a, b: a - b, 'xor': lambda a, b: a ^ b,
    'ror': lambda a, b: b | a, 'rand': lambda a, b: b & a, 'rsub': lambda a, b: b - a, 'rxor': lambda a, b: b ^ a,
    'eq': lambda a, b: a == b, 'le': lambda a, b: a <= b, 'lt': lambda a, b: a < b, 'ge': lambda a, b: a >= b,
    'gt': lambda a, b: a > b,
}


def pairs_in(form, pairs):
    if form == 'dict':
        return dict(pairs)
    return list(pairs) if form == 'pairs' else (p for p in pairs)


def apply(kind, obj, op):
    """(object afterwards, outcome).  The value of an outcome is comparable data (norm)."""
    after, (tag, v) = _apply(kind, obj, op)
    return after, (tag, norm(v) if tag == 'ok' else exc(v))


def exc(e):
    return (type(e).__name__, str(e))


def _apply(kind, obj, op):
    name = op[0]
    a = [x.v if isinstance(x, Const) else x for x in op[1:]]
    try:
        if name == 'bad':
            return obj, ('ok', _bad(kind, obj, a[0]))
        if name == 'cmp':
            other = list(a[1]) if kind in ('list', 'keylist') else set(a[1]) if kind == 'set' else {
                k: dict.get(obj, k, 0) for k in a[1]}
            return obj, ('ok', getattr(obj, a[0])(other))
        if name == 'concat':
            return obj, ('ok', obj + real(a[0]))
        if name == 'rconcat':
            return obj, ('ok', a[0] + obj)
        if name == 'mul':
            return obj, ('ok', obj * a[0])
        if name == 'rmul':
            return obj, ('ok', a[0] * obj)
        if name == 'binop':
            return obj, ('ok', BINARY[a[0]](obj, real(a[1])))
        if name == 'call':
            r = getattr(obj, a[0])(*[real(x) for x in a[1:]])
            return obj, ('ok', 'self' if r is obj else r)
        if kind == 'dict':
            if name == 'set':
                obj[a[0]] = a[1]
                return obj, ('ok', None)
            if name == 'get':
                return obj, ('ok', obj.get(a[0], 'nothing'))
            if name == 'getkey':
                return obj, ('ok', obj[a[0]])
            if name == 'delkey':
                del obj[a[0]]
                return obj, ('ok', None)
            if name == 'popkey':
                return obj, ('ok', obj.pop(*a))
            if name == 'update':
                obj.update(pairs_in(*a))
                return obj, ('ok', None)
            if name == 'ior':
                was = obj
                obj |= pairs_in(*a)
                return obj, ('ok', obj is was)
            if name == 'or':
                return obj, ('ok', obj | pairs_in(*a))
            if name == 'ror':
                return obj, ('ok', pairs_in(*a) | obj)
            if name == 'view':
                return obj, ('ok', getattr(obj, a[0])()[a[1]])
            if name == 'viewdel':
                view = getattr(obj, a[0])()
                del view[a[1]]
                return obj, ('ok', None)
            if name == 'viewset':
                arg = set(real(a[1]))
                if a[0] == 'isdisjoint':
                    return obj, ('ok', obj.keys().isdisjoint(arg))
                return obj, ('ok', BINARY[a[0]](obj.keys(), arg))
            if name == 'viewread':
                v = getattr(obj, a[0])()
                return obj, ('ok', {'len': len, 'iter': list, 'reversed': lambda x: list(reversed(x)),
                                    'repr': repr}[a[1]](v))
            if name == 'fromkeys':
                return obj, ('ok', type(obj).fromkeys(real(a[0]), 7))
    except Exception as e:
        return obj, ('exc', e)
    return work.apply(obj, op)


def _bad(kind, obj, which):
    seq = obj.keys() if kind == 'dict' else obj
    if which == 0:
        return obj.update(5)
    if which == 1:
        return seq['x']
    if which == 2:
        return (obj.popitem if kind == 'dict' else obj.pop)('x')
    return obj.update(broken())


def norm(v):
    """Data two runs can be compared by."""
    if isinstance(v, SortedDict):
        return ('sorted', type(v).__name__, [(k, dict.__getitem__(v, k)) for k in list(v)])
    if isinstance(v, (SortedList, SortedSet)):
        return ('sorted', type(v).__name__, list(v))
    if isinstance(v, dict):
        return ('dict', [(k, v[k]) for k in v])
    if isinstance(v, (set, frozenset)):
        return ('set', v)
    return v


def same(a, b):
    """Equal data of the same types, the same objects inside."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (set, frozenset)):
        return a == b
    if isinstance(a, (int, float, str, bytes, bool, complex)):
        return a == b
    return False
