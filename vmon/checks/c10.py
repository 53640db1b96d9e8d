"""C10: sequence and membership sides of a sorted set describe one thing."""

from .. import work
from ..setwork import CLASSES, build, operand
from ..values import any_dom, roomy

ID = 'C10'
LEVEL = 'exploration'
TECHNIQUE = 'random histories, sequence/membership agreement invariants at every step'
QUICK_CASES = 8000
RULE = ('a case is one random history of changes to a sorted set; after each, list(ss) must be duplicate-free, '
        'ascending and agree with len, in and set(ss), and sampled position queries (through methods looked up '
        'now and through bound methods taken before the history) are compared with that list; distinct by class, '
        'domain, profile and operation sequence')
ASSUMPTIONS = ['members are hashable and totally ordered (or their keys are)']
REQUIRED = ['oracle_checks', 'read_int', 'read_slice', 'rank', 'index', 'range', 'pop', 'del_int', 'del_slice',
            'held_methods', 'bulk', 'position_error']

HELD = ('bisect_left', 'bisect_right', 'bisect', 'index', 'irange', 'islice', 'isdisjoint', 'issubset', 'issuperset',
        'count', '__contains__', '__len__', '__getitem__', '__reversed__')
BULK = ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update')
OPS = ('add', 'add', 'discard', 'remove', 'pop', 'poplast', 'del_int', 'del_slice', 'clear', 'reset', 'bulk', 'bulk',
       'bulk', 'iop')


def observe(ctx, ss, dom, what):
    ref = list(ss)
    keys = work.keys_of(ref, dom.key)
    ctx.check(work.is_ascending(keys), f'{what}: not ascending', ref)
    asset = set(ref)
    ctx.check(len(asset) == len(ref), f'{what}: duplicates', ref)
    ctx.check(len(ss) == len(ref), f'{what}: len / iteration', len(ss), ref)
    ctx.same_seq(list(reversed(ss)), ref[::-1], f'{what}: reversed')
    for v in ref if len(ref) < 200 else ref[:: len(ref) // 100]:
        ctx.check(v in ss, f'{what}: iterated but not a member', v)
    ctx.check(ss == asset and not ss != asset, f'{what}: membership differs from iteration', ref)
    return ref


def member_absent(rng, dom, ref):
    return work.pick_value(rng, dom, ref, 0.5)


def query(ctx, rng, dom, ss, ref, held):
    n = len(ref)
    if rng.random() < 0.4:
        m = held
        ctx.n('held_methods')
    else:
        m = {name: getattr(ss, name) for name in held}
    c = rng.randrange(9)
    if c == 0:
        i = work.pick_index(rng, ss, n)
        st, val = work.outcome_of(lambda: m['__getitem__'](i))
        if -n <= i < n:
            ctx.n('read_int')
            ctx.check(st == 'ok' and val is ref[i], f'ss[{i}] of {n}', val, ref[i])
        else:
            ctx.n('position_error')
            ctx.check(st == 'exc' and type(val) is IndexError, f'ss[{i}] of {n}', st, val)
    elif c == 1:
        s = work.pick_slice(rng, ss, n)
        ctx.n('read_slice')
        ctx.same_seq(m['__getitem__'](s), ref[s], f'ss[{s}] of {n}')
    elif c == 2:
        v = work.pick_value(rng, dom, ref)
        ks, k = work.keys_of(ref, dom.key), dom.key_of(v)
        ctx.n('rank')
        ctx.eq(m['bisect_left'](v), work.bisect_ref(ks, k, False), f'bisect_left({v!r})')
        ctx.eq(m['bisect_right'](v), work.bisect_ref(ks, k, True), f'bisect_right({v!r})')
        ctx.eq(m['bisect'](v), work.bisect_ref(ks, k, True), f'bisect({v!r})')
        if dom.key is not None:
            q = work.pick_key(rng, dom, ref)
            for nm, right in (('bisect_key_left', False), ('bisect_key_right', True), ('bisect_key', True)):
                ctx.eq(m[nm](q), work.bisect_ref(ks, q, right), f'{nm}({q!r})')
    elif c == 3:
        v = work.pick_value(rng, dom, ref, 0.8)
        args = () if rng.random() < 0.5 else (work.pick_bound(rng, n), work.pick_bound(rng, n))
        ctx.n('index')
        st, val = work.outcome_of(lambda: m['index'](v, *args))
        try:
            want = ref.index(v, *args)
        except ValueError:
            ctx.check(st == 'exc' and type(val) is ValueError, f'index({v!r}, {args})', st, val)
        else:
            ctx.check(st == 'ok' and val == want, f'index({v!r}, {args})', val, want)
    elif c == 4:
        v = member_absent(rng, dom, ref)
        present = v in ref
        ctx.eq(bool(m['__contains__'](v)), present, f'{v!r} in set')
        ctx.eq(m['count'](v), int(present), f'count({v!r})')
    elif c == 5:
        op = work.gen_list_op(rng, dom, ss, ref, rng.choice(('irange', 'islice')))
        ctx.n('range')
        got = list(m[op[0]](*op[1:]))
        if op[0] == 'islice':
            want = work.islice_ref(ref, *op[1:])
        else:
            lo = None if op[1] is None else dom.key_of(op[1])
            hi = None if op[2] is None else dom.key_of(op[2])
            want = work.irange_ref(ref, work.keys_of(ref, dom.key), lo, hi, op[3], op[4])
        ctx.same_seq(got, want, repr(op))
    elif c == 6:
        ctx.same_seq(list(m['__reversed__']()), ref[::-1], 'reversed')
        ctx.eq(m['__len__'](), n, 'len')
    elif c == 7:
        some = ref[: rng.randrange(n + 1)]
        ctx.eq(m['issuperset'](some), True, 'issuperset of own members')
        ctx.eq(m['issubset'](ref), True, 'issubset of own members')
        ctx.eq(m['isdisjoint'](some), not some, 'isdisjoint of own members')
    else:
        it = iter(ss)
        k = rng.randrange(n + 1)
        ctx.same_seq([next(it) for _ in range(k)], ref[:k], 'partial iteration')


def case(ctx):
    rng = ctx.rng
    cls = rng.choice(CLASSES)
    prof = work.profile(rng)
    if prof.name in ('default', 'large') and rng.random() < 0.7:
        prof.n //= 2
    dom = roomy(rng, prof.n, lambda: any_dom(rng, hashable=True))
    ss = build(rng, cls, dom, prof.load, dom.some(rng, prof.n))
    if rng.random() < 0.2:
        ss = rng.choice((lambda: ss.copy(), lambda: ss | (), lambda: ss & list(ss), lambda: ss - []))()
        if prof.load:
            ss._reset(prof.load)
    names = HELD + (('bisect_key_left', 'bisect_key_right', 'bisect_key', 'irange_key') if dom.key is not None else ())
    held = {n: getattr(ss, n) for n in names}
    ctx.log('build', cls.__name__, str(prof), repr(dom))
    ctx.shape(cls.__name__, dom.name, repr(prof))
    ref = observe(ctx, ss, dom, 'construction')
    ops, wts = work.weights(rng, OPS, boost=('add', 'bulk', 'pop'))
    for _ in range(prof.ops):
        name = rng.choices(ops, wts)[0]
        n = len(ref)
        v = work.pick_value(rng, dom, ref)
        what = f'{name} {v!r}'
        want = None
        if name == 'add':
            ss.add(v)
        elif name == 'discard':
            ss.discard(v)
        elif name == 'remove':
            if v in ref:
                ss.remove(v)
        elif name in ('pop', 'poplast', 'del_int'):
            i = work.pick_index(rng, ss, n)
            args = () if name == 'poplast' else (i,)
            i = args[0] if args else -1
            what = f'{name}{args} of {n}'
            ctx.n('del_int' if name == 'del_int' else 'pop')
            st, val = work.outcome_of(lambda: ss.__delitem__(i) if name == 'del_int' else ss.pop(*args))
            want = list(ref)
            if -n <= i < n:
                ctx.check(st == 'ok' and (name == 'del_int' or val is ref[i]), what, st, val, ref[i])
                del want[i]
            else:
                ctx.n('position_error')
                ctx.check(st == 'exc' and type(val) is IndexError, what, st, val)
        elif name == 'del_slice':
            s = work.pick_slice(rng, ss, n)
            what = f'del [{s}] of {n}'
            ctx.n('del_slice')
            del ss[s]
            want = list(ref)
            del want[s]
        elif name == 'clear':
            ss.clear()
        elif name == 'reset':
            ss._reset(rng.choice((4, 5, 7, 50)))
            want = ref
        elif name == 'bulk':
            ctx.n('bulk')
            o, ovals = operand(rng, dom, ref)
            sub = rng.choice(BULK)
            what = f'{sub} {ovals!r}'
            getattr(ss, sub)(o)
        elif name == 'iop':
            ctx.n('bulk')
            o, ovals = operand(rng, dom, ref)
            c = rng.randrange(4)
            what = f'iop {c} {ovals!r}'
            before = ss
            if c == 0:
                ss |= o
            elif c == 1:
                ss &= o
            elif c == 2:
                ss -= o
            else:
                ss ^= o
            ctx.check(ss is before, 'in-place operator made another object')
        ctx.log(what)
        ctx.shape(name)
        ref = observe(ctx, ss, dom, what)
        if want is not None:
            ctx.same_seq(ref, want, what)
        for _ in range(rng.randrange(1, 4)):
            query(ctx, rng, dom, ss, ref, held)
