"""C12: copies, deep copies, pickles and eval(repr) reproduce the container."""

import copy
import math
import pickle

from .. import anyobj, target, work
from ..anyobj import change, contents, identical, make, pick_world, sane
from ..dictwork import Val

ID = 'C12'
LEVEL = 'exploration'
TECHNIQUE = 'random histories; reproduced object compared with the original, both then driven on and cross-watched'
QUICK_CASES = 7000
RULE = ('a case builds a container of a random class (user subclasses included) with a random history, reproduces '
        'it by every copying way that applies (copy methods, copy module, deepcopy alone and inside a nest together with its elements, all '
        'pickle protocols, eval(repr)), compares class, key, contents, order and object identities, then changes '
        'original and reproduction in turn while the other is watched; distinct by class, domain, size and ways')
ASSUMPTIONS = ['key functions and classes are importable (pickling)', 'no self-containing containers',
               'among members of a sorted set with equal keys no order is compared']
REQUIRED = ['oracle_checks', 'copy', 'copy.copy', 'deepcopy', 'pickle', 'repr', 'nested', 'shared_outside', 'independent',
            'list', 'keylist', 'set', 'dict', 'empty', 'large']
ATOMS = (int, float, str, bytes, bool, complex, type(None))


def same_contents(kind, dom, a, b, deep):
    if len(a) != len(b):
        return False
    if kind == 'set' and dom.key is not None and not dom.inject:
        if not deep:
            return sorted(map(id, a)) == sorted(map(id, b))
        return set(a) == set(b)
    if not deep:
        return identical(kind, a, b)
    return all(x == y and getattr(x, 'uid', 0) == getattr(y, 'uid', 0) for x, y in zip(a, b))


def unshared(kind, a, b):
    """No mutable-ish object of one is in the other (after a deep copy)."""
    def flat(xs):
        for x in xs:
            for y in (x if kind == 'dict' else (x,)):
                if not isinstance(y, ATOMS) and not isinstance(y, (tuple, frozenset)) and hasattr(y, '__reduce__'):
                    if type(y).__module__.startswith('vmon') or isinstance(y, list):
                        yield id(y)
    return not set(flat(a)) & set(flat(b))


def ways(ctx, rng, kind, c, dom):
    out = [('copy', lambda: c.copy(), False), ('copy.copy', lambda: copy.copy(c), False),
           ('deepcopy', lambda: copy.deepcopy(c), True)]
    p = rng.randrange(pickle.HIGHEST_PROTOCOL + 1)
    out.append(('pickle', lambda: pickle.loads(pickle.dumps(c, p)), True))
    out.append(('pickle', lambda: pickle.loads(pickle.dumps(c, pickle.HIGHEST_PROTOCOL - p)), True))

    def nested():
        nest = {'a': [c, 1], 'b': c}
        elems = [x for k in list(c) for x in ((k, dict.__getitem__(c, k)) if kind == 'dict' else (k,))]
        if rng.random() < 0.5:
            nest['elems'] = elems
        else:
            nest = {'elems': elems, **nest}
        d = copy.deepcopy(nest) if rng.random() < 0.5 else pickle.loads(pickle.dumps(nest, p))
        ctx.check(d['a'][0] is d['b'], 'one object became two inside a nest')
        e = d['b']
        got = [x for k in list(e) for x in ((k, dict.__getitem__(e, k)) if kind == 'dict' else (k,))]
        ctx.check(len(got) == len(elems), 'contents changed inside a nest', got, elems)
        if kind == 'set' and dom.key is not None and not dom.inject:
            ids = {id(x) for x in got}
            ctx.check(all(id(x) in ids for x in d['elems'] if not isinstance(x, ATOMS)),
                      'an object shared with the surroundings became two', got, d['elems'])
        else:
            ctx.check(all(x is y for x, y in zip(got, d['elems']) if not isinstance(x, ATOMS)),
                      'an object shared with the surroundings became two', got, d['elems'])
        ctx.n('shared_outside')
        return e

    out.append(('nested', nested, True))
    if dom.key is None and dom.evaluable:
        def ev():
            ns = {k: getattr(target, k) for k in target.__all__}
            ns.update(vars(anyobj), Val=Val, inf=math.inf)
            return eval(repr(c), ns)
        out.append(('repr', ev, True))
    return out


def case(ctx):
    rng = ctx.rng
    ev = rng.random() < 0.4
    prof = work.profile(rng)
    kind, cls, dom = pick_world(rng, evaluable=ev, n=prof.n)
    n = prof.n if rng.random() < 0.9 else 0
    c = make(rng, kind, cls, dom, prof.load, dom.some(rng, n))
    if rng.random() < 0.05:
        c.clear()
    ctx.n(kind)
    ctx.n('empty' if not len(c) else 'large' if len(c) > 200 else 'medium')
    ctx.log('world', kind, cls.__name__, repr(dom), contents(kind, c))
    todo = ways(ctx, rng, kind, c, dom)
    rng.shuffle(todo)
    for name, f, deep in todo[: rng.randrange(2, 8)]:
        before = contents(kind, c)
        ctx.log(name)
        ctx.shape(kind, cls.__name__, dom.name, n, name)
        d = f()
        ctx.n(name)
        what = f'{name} of {cls.__name__}'
        ctx.check(d is not c, f'{what}: same object')
        ctx.check(type(d) is type(c), f'{what}: class', type(d), type(c))
        ctx.check(d.key is c.key and d.key is dom.key, f'{what}: key', d.key, c.key)
        after = contents(kind, c)
        ctx.check(identical(kind, before, after), f'{what} changed the original', before, after)
        got = contents(kind, d)
        ctx.check(same_contents(kind, dom, got, before, deep), f'{what}: contents / original', got, before)
        ctx.check(d == c and not d != c, f'{what}: not equal to the original')
        if deep and name != 'repr':
            ctx.check(unshared(kind, got, before), f'{what}: shares objects with the original')
        sane(ctx, kind, d, dom, what)
        d._check() if not dom.name.startswith('ltonly') and 'lt' not in dom.name else None
        # drive both on, watching the other
        pair = [c, d]
        for _ in range(rng.randrange(2, 10)):
            i = rng.randrange(2)
            x, y = pair[i], pair[1 - i]
            watch = contents(kind, y)
            ctx.n('independent')
            change(rng, kind, x, dom)
            ctx.check(identical(kind, watch, contents(kind, y)),
                      f'{what}: changing {"the copy" if i else "the original"} changed the other', watch, contents(kind, y))
        sane(ctx, kind, c, dom, 'original after ' + what)
        sane(ctx, kind, d, dom, what + ', driven on')
        if kind == 'dict':
            for q in (c, d):
                q[dom.gen(rng)] = Val(5)
