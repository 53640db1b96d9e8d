"""C07: a sorted dict mirrors a built-in dict, in sorted order."""

from collections import ChainMap, Counter, OrderedDict, UserDict

from .. import work
from ..values import roomy
from ..target import SortedDict
from ..dictwork import (
    CLASSES, Val, build, dict_dom, mapping_arg, mapping_only, pick_dict_key, str_dom, update_size,
)

ID = 'C07'
LEVEL = 'exploration'
TECHNIQUE = 'random histories mirrored on a built-in dict'
QUICK_CASES = 4000
RULE = ('a case is one random history of mapping operations applied to a sorted dict and to a built-in dict '
        '(with the same __missing__ hook, if any); every result (by object identity), every exception and, after '
        'every operation, all keys, values, their identities and the ascending order of iteration, reversed '
        'iteration and all views are compared; distinct by class, domain, profile and operation sequence')
ASSUMPTIONS = ['keys are hashable, totally ordered (or their key-function values are), equal keys have equal '
               'key-function values']
REQUIRED = ['oracle_checks', 'set_new', 'set_old', 'del', 'pop', 'setdefault', 'update_small', 'update_big',
            'update_kw', 'or', 'ror', 'ior', 'fromkeys', 'key_error', 'missing_hook', 'clear', 'eq', 'falsy_values', 'odd_keywords']
ZERO = Val(-1)
ODD_WORDS = ('self', 'key', 'iterable', 'cls', 'other', 'args', 'kwargs', 'pairs', '_key', 'class', 'not a name', '')


def observe(ctx, sd, model, dom, what):
    keys = list(sd)
    mk = list(model)
    ctx.eq(len(keys), len(mk), f'{what}: number of keys iterated')
    ctx.eq(len(sd), len(mk), f'{what}: len')
    ctx.check(Counter(map(id, keys)) == Counter(map(id, mk)), f'{what}: stored keys', keys, mk)
    ctx.check(work.is_ascending(work.keys_of(keys, dom.key)), f'{what}: keys not ascending', keys)
    ctx.same_seq(list(reversed(sd)), keys[::-1], f'{what}: reversed')
    vals = [dict.__getitem__(model, k) for k in keys]
    ctx.same_seq(list(sd.values()), vals, f'{what}: values')
    ctx.same_seq(list(sd.keys()), keys, f'{what}: keys()')
    items = list(sd.items())
    ctx.check(len(items) == len(keys) and all(
        type(t) is tuple and len(t) == 2 and t[0] is k and t[1] is v for t, k, v in zip(items, keys, vals)),
        f'{what}: items()', items)
    return keys


def exact(ctx, a, b, what):
    """Two outcomes: the same object, or equal containers, or the same exception."""
    ctx.counts['oracle_checks'] += 1
    if a[0] != b[0]:
        ctx.fail(f'{what}: sorted dict / dict', a, b)
    if a[0] == 'exc':
        if type(a[1]) is not type(b[1]):
            ctx.fail(f'{what}: exceptions of sorted dict / dict', a[1], b[1])
        if type(b[1]) is KeyError:
            ctx.n('key_error')
            if not (len(a[1].args) == 1 and a[1].args[0] is b[1].args[0]):
                ctx.fail(f'{what}: KeyError arguments', a[1].args, b[1].args)
    elif a[1] is not b[1] and not (isinstance(b[1], (tuple, bool, int)) and a[1] == b[1]):
        ctx.fail(f'{what}: results of sorted dict / dict', a[1], b[1])


OPS = ('set', 'set', 'get_item', 'get', 'get_default', 'del', 'pop', 'pop_default', 'setdefault', 'setdefault1',
       'update', 'update', 'update_kw', 'or', 'ror', 'ior', 'fromkeys', 'clear', 'contains', 'eq', 'reset')


def case(ctx):
    rng = ctx.rng
    cls, plain = rng.choice(CLASSES)
    prof = work.profile(rng)
    dom = str_dom(rng) if rng.random() < 0.2 else roomy(rng, prof.n, lambda: dict_dom(rng))
    if prof.name in ('wide', 'default', 'large'):
        prof.n //= 2
    counter = iter(range(10**9))

    odd = rng.random() < 0.6

    def fresh():
        return Val(next(counter))

    def val():
        if odd and rng.random() < 0.3:
            ctx.n('falsy_values')
            return rng.choice((None, None, 0, False, '', (), 0.0, [], ZERO, ctx.fail, int))
        return fresh()

    def pairs(k):
        return [(pick_dict_key(rng, dom, keys, 0.4), val()) for _ in range(k)]

    keys = []
    first = [(dom.gen(rng), val()) for _ in range(prof.n)]
    sd, model = build(rng, cls, plain, dom, prof.load, first)
    ctx.log('build', cls.__name__, str(prof), repr(dom), first)
    ctx.shape(cls.__name__, dom.name, repr(prof))
    keys = observe(ctx, sd, model, dom, 'construction')
    names, wts = work.weights(rng, OPS, boost=('set', 'del', 'update'))
    for _ in range(prof.ops):
        name = rng.choices(names, wts)[0]
        ctx.shape(name)
        k = pick_dict_key(rng, dom, keys)
        stored = k in model
        what = f'{name} {k!r}'
        if name == 'set':
            ctx.n('set_old' if stored else 'set_new')
            v = val()
            sd[k] = model[k] = v
        elif name == 'get_item':
            if not stored and plain is not dict:
                ctx.n('missing_hook')
            exact(ctx, work.outcome_of(lambda: sd[k]), work.outcome_of(lambda: model[k]), what)
        elif name == 'get':
            exact(ctx, ('ok', sd.get(k)), ('ok', model.get(k)), what)
        elif name == 'get_default':
            d = val()
            exact(ctx, ('ok', sd.get(k, d)), ('ok', model.get(k, d)), what)
        elif name == 'del':
            ctx.n('del')
            exact(ctx, work.outcome_of(lambda: sd.__delitem__(k)), work.outcome_of(lambda: model.__delitem__(k)), what)
        elif name == 'pop':
            ctx.n('pop')
            exact(ctx, work.outcome_of(lambda: sd.pop(k)), work.outcome_of(lambda: model.pop(k)), what)
        elif name == 'pop_default':
            d = rng.choice((None, val()))
            if rng.random() < 0.5:
                exact(ctx, work.outcome_of(lambda: sd.pop(k, d)), work.outcome_of(lambda: model.pop(k, d)), what)
            else:
                exact(ctx, work.outcome_of(lambda: sd.pop(k, default=d)), work.outcome_of(lambda: model.pop(k, d)), what)
        elif name == 'setdefault':
            ctx.n('setdefault')
            d = val()
            by_name = rng.random() < 0.2
            exact(ctx, work.outcome_of(lambda: sd.setdefault(k, default=d) if by_name else sd.setdefault(k, d)), work.outcome_of(lambda: model.setdefault(k, d)), what)
        elif name == 'setdefault1':
            exact(ctx, work.outcome_of(lambda: sd.setdefault(k)), work.outcome_of(lambda: model.setdefault(k)), what)
        elif name == 'update':
            ps = pairs(update_size(rng, len(keys)))
            what = f'update {ps!r}'
            ctx.n('update_big' if 10 * len(dict(ps)) > len(model) else 'update_small')
            sd.update(mapping_arg(rng, ps, dom))
            model.update(ps)
        elif name == 'update_kw':
            if dom.name.startswith('ident'):
                kw = {f'k{rng.randrange(40)}': val() for _ in range(rng.choice((0, 1, 2, 3, 5, 15)))}
                ps = pairs(rng.randrange(3))
                ctx.n('update_kw')
                if rng.random() < 0.5:
                    arg = mapping_arg(rng, ps, dom)
                    was = dict(arg) if type(arg) is dict else None
                    sd.update(arg, **kw)
                    if was is not None:
                        ctx.check(list(arg.items()) == list(was.items()), 'update() changed its argument', arg, was)
                    model.update(dict(ps), **kw)
                else:
                    if rng.random() < 0.3:
                        # any string can be a keyword, whatever the parameters are called
                        kw.update((x, val()) for x in rng.sample(ODD_WORDS, rng.randrange(4)))
                        ctx.n('odd_keywords')
                    sd.update(**kw)
                    model.update(**kw)
                    if rng.random() < 0.2:
                        made, want = cls(dom.key, **kw), plain(**kw)
                        observe(ctx, made, want, dom, f'{cls.__name__}(key, **{kw!r})')
                    if rng.random() < 0.2 and dom.key is None:
                        made, want = cls(ps, **kw), plain(ps, **kw)
                        observe(ctx, made, want, dom, f'{cls.__name__}({ps!r}, **{kw!r})')
                what = f'update {ps!r} **{kw!r}'
            else:
                sd.update()
        elif name in ('or', 'ror', 'ior'):
            ps = pairs(update_size(rng, len(keys)))
            what = f'{name} {ps!r}'
            ctx.n(name)
            if name == 'or':
                res = sd | mapping_only(rng, ps, dom)
                want = plain(model)
                want.update(dict(ps))
            elif name == 'ror':
                o = mapping_only(rng, ps, dom)
                while isinstance(o, (SortedDict, OrderedDict, UserDict, ChainMap)):
                    o = mapping_only(rng, ps, dom)  # these answer | themselves
                res = o | sd
                want = plain(dict(ps))
                want.update(model)
                ctx.check(type(res) is cls, f'{what}: class of the result', type(res))
            else:
                before = sd
                sd |= mapping_arg(rng, ps, dom)
                ctx.check(sd is before, '|= made a new object')
                model |= ps
            if name != 'ior':
                observe(ctx, res, want, dom, what)
        elif name == 'fromkeys':
            if dom.key is None:
                ctx.n('fromkeys')
                ks = [k for k, _ in pairs(rng.randrange(8))]
                v = val()
                args = (v,) if rng.random() < 0.6 else ()
                a = rng.choice((cls, sd)).fromkeys(iter(ks), *args)
                b = plain.fromkeys(ks, *args)
                ctx.check(type(a) is cls, 'class of fromkeys()', type(a))
                observe(ctx, a, b, dom, 'fromkeys')
        elif name == 'clear':
            ctx.n('clear')
            sd.clear()
            model.clear()
        elif name == 'contains':
            ctx.check((k in sd) is stored, what, k in sd, stored)
        elif name == 'eq':
            ctx.n('eq')
            ctx.check(sd == model and model == sd and not sd != model, 'equality with the mirror')
            other = dict(model)
            if rng.random() < 0.5 and other:
                other[rng.choice(list(other))] = fresh()
            else:
                other[k] = fresh()
            ctx.check(sd != other and not sd == other and other != sd, 'equality with a different dict')
        elif name == 'reset':
            sd._reset(rng.choice((4, 5, 8, 50)))
        ctx.log(what)
        keys = observe(ctx, sd, model, dom, what)
    for k in keys[:: max(1, len(keys) // 50)]:
        ctx.check(k in sd and sd[k] is dict.__getitem__(model, k) and sd.get(k) is sd[k], 'lookup', k)

