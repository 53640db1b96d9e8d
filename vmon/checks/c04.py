"""C04: irange, islice and irange_key against their definitions."""

from .. import work
from ..target import SortedDict, SortedSet
from ..values import any_dom, roomy

ID = 'C04'
LEVEL = 'exploration'
TECHNIQUE = 'random histories, range iterators compared with their definition'
QUICK_CASES = 4000
RULE = ('a case is one random history of mutations on a sorted list, dict or set with range and slice iterators '
        'in between (open, closed, missing, falsy, inverted, out-of-range bounds; forwards and in reverse), each '
        'compared by object identity with the stored values filtered by definition; distinct by container, '
        'domain, profile and operation sequence')
ASSUMPTIONS = ['iteration order is the reference (its correctness is C01)']
REQUIRED = ['oracle_checks', 'irange', 'irange_key', 'islice', 'empty_result', 'one_segment', 'two_segments',
            'many_segments', 'reverse', 'on_list', 'on_dict', 'on_set']


def judge(ctx, obj, ref, dom, op, positional=True):
    name = op[0]
    if name == 'islice':
        want = work.islice_ref(ref, op[1], op[2], op[3])
        rev = op[3]
    else:
        lo, hi, inc, rev = op[1:]
        if name == 'irange':
            lo = None if lo is None else dom.key_of(lo)
            hi = None if hi is None else dom.key_of(hi)
        want = work.irange_ref(ref, work.keys_of(ref, dom.key), lo, hi, inc, rev)
    form = ctx.rng.randrange(4)
    f = getattr(obj, name)

    def call():
        if form == 0 or name == 'islice' and form == 1:
            return list(f(*op[1:]))
        if name == 'islice':
            kw = {k: v for k, v in zip(('start', 'stop', 'reverse'), op[1:]) if v is not None and v is not False}
            return list(f(**kw))
        a, b = ('minimum', 'maximum') if name == 'irange' else ('min_key', 'max_key')
        kw = {}
        if op[1] is not None:
            kw[a] = op[1]
        if op[2] is not None:
            kw[b] = op[2]
        if op[3] != (True, True):
            kw['inclusive'] = op[3]
        if op[4]:
            kw['reverse'] = True
        return list(f(**kw))

    st, val = work.outcome_of(call)
    ctx.n(name)
    ctx.n('reverse', rev)
    ctx.check(st == 'ok', f'{op!r} raised', val)
    ctx.same_seq(val, want, f'{op!r} of {len(ref)} values')
    if not want:
        ctx.n('empty_result')
    else:
        lists = getattr(obj, '_lists', None) or getattr(getattr(obj, '_list', None), '_lists', None) or [ref]
        m = max(map(len, lists))
        ctx.n('many_segments' if len(want) > 2 * m else 'two_segments' if len(want) > m else 'one_segment')


def gen(rng, dom, obj, ref):
    kinds = ['irange', 'islice'] + (['irange_key'] if dom.key is not None else [])
    op = work.gen_list_op(rng, dom, obj, ref, rng.choice(kinds))
    if op[0] == 'irange' and rng.random() < 0.3 and ref:
        # neighbouring stored values as bounds
        i = work.edges(rng, obj, len(ref))
        j = min(len(ref) - 1, max(0, i + rng.randrange(-2, 12)))
        op = ('irange', ref[i], ref[j]) + op[3:]
    if op[0] == 'irange_key' and rng.random() < 0.3 and ref:
        i = work.edges(rng, obj, len(ref))
        j = min(len(ref) - 1, max(0, i + rng.randrange(-2, 12)))
        op = ('irange_key', dom.key(ref[i]), dom.key(ref[j])) + op[3:]
    return op


def on_list(ctx, rng, dom, prof):
    sl = work.build_list(rng, dom, prof, dom.some(rng, prof.n))
    ref = list(sl)
    names, wts = work.weights(rng, work.LIST_MUTATORS, boost=('add', 'remove', 'pop'))
    for _ in range(prof.ops):
        op = work.gen_list_op(rng, dom, sl, ref, rng.choices(names, wts)[0])
        ctx.log(*op)
        ctx.shape(op[0])
        sl = work.apply(sl, op)[0]
        ref = list(sl)
        for _ in range(rng.randrange(1, 4)):
            op = gen(rng, dom, sl, ref)
            ctx.log(*op)
            judge(ctx, sl, ref, dom, op)


def on_assoc(ctx, rng, dom, prof, cls):
    vals = dom.some(rng, prof.n)
    if cls is SortedDict:
        obj = SortedDict(dom.key) if dom.key is not None or rng.random() < 0.5 else SortedDict()
        if prof.load:
            obj._reset(prof.load)
        obj.update((v, None) for v in vals)
    else:
        obj = SortedSet(vals, key=dom.key)
        if prof.load:
            obj._reset(prof.load)
    for _ in range(prof.ops):
        ref = list(obj)
        c = rng.randrange(8)
        if c < 4:
            v = dom.gen(rng)
            ctx.log('add', v)
            if cls is SortedDict:
                obj[v] = None
            else:
                obj.add(v)
        elif c < 7 and ref:
            v = rng.choice(ref)
            ctx.log('drop', v)
            if cls is SortedDict:
                del obj[v]
            else:
                obj.remove(v)
        elif c == 7:
            vs = dom.some(rng, work.pick_bulk_size(rng, len(ref)))
            ctx.log('update', vs)
            obj.update(dict.fromkeys(vs) if cls is SortedDict else vs)
        ctx.shape(c)
        ref = list(obj)
        for _ in range(rng.randrange(1, 4)):
            op = gen(rng, dom, obj, ref)
            ctx.log(*op)
            judge(ctx, obj, ref, dom, op)


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(('list', 'list', 'list', 'dict', 'set'))
    prof = work.profile(rng)
    dom = any_dom(rng) if kind == 'list' else roomy(rng, prof.n, lambda: any_dom(rng, hashable=True))
    ctx.log(kind, str(prof), repr(dom))
    ctx.shape(kind, dom.name, repr(prof))
    ctx.n('on_' + kind)
    if kind == 'list':
        on_list(ctx, rng, dom, prof)
    else:
        on_assoc(ctx, rng, dom, prof, SortedDict if kind == 'dict' else SortedSet)
