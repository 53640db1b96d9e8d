"""C02: positional access against a plain list at every moment."""

from .. import work
from ..values import any_dom

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = 'random histories, differential oracle against plain lists'
QUICK_CASES = 6000
RULE = ('a case is one random history of mutations on a sorted list with positional reads, pops and deletions '
        '(ints, bools, negatives, out of range, slices of every sign of step) in between, each compared by '
        'object identity with the same operation on list(sl) taken just before; distinct by domain, profile '
        'and operation sequence')
ASSUMPTIONS = ['iteration order is the reference (its correctness is C01)']
REQUIRED = ['oracle_checks', 'read_int', 'read_slice', 'read_error', 'op_pop', 'op_delitem', 'deleted_slices']


def read(ctx, sl, ref, i):
    st, val = work.outcome_of(lambda: sl[i])
    try:
        want = ref[i]
    except Exception as e:
        ctx.n('read_error')
        ctx.check(st == 'exc' and type(val) is type(e), f'sl[{i!r}] of {len(ref)} values', st, val, e)
        return
    ctx.check(st == 'ok', f'sl[{i!r}] of {len(ref)} values raised', val)
    if isinstance(i, slice):
        ctx.n('read_slice')
        ctx.check(type(val) is list, f'sl[{i!r}] is not a list', type(val))
        ctx.same_seq(val, want, f'sl[{i!r}] of {len(ref)} values')
    else:
        ctx.n('read_int')
        ctx.check(val is want, f'sl[{i!r}] of {len(ref)} values: got / expected', val, want)


def a_slice(rng, sl, n):
    s = work.pick_slice(rng, sl, n)
    if rng.random() < 0.02:
        s = slice(s.start, s.stop, 0)
    return s


def case(ctx):
    rng = ctx.rng
    dom = any_dom(rng)
    prof = work.profile(rng)
    values = dom.some(rng, prof.n)
    sl = work.build_list(rng, dom, prof, values)
    ctx.log('build', str(prof), repr(dom))
    ctx.shape(dom.name, repr(prof))
    ref = list(sl)
    names, wts = work.weights(rng, work.LIST_MUTATORS, boost=('pop', 'delitem', 'delslice', 'add'))
    nreads = rng.choice((0, 1, 3, 6))
    for _ in range(prof.ops):
        name = rng.choices(names, wts)[0]
        op = work.gen_list_op(rng, dom, sl, ref, name)
        if name == 'delslice':
            op = ('delitem', a_slice(rng, sl, len(ref)))
        ctx.log(*op)
        ctx.shape(name)
        ctx.n('op_' + op[0])
        after, (st, val) = work.apply(sl, op)
        if op[0] in ('pop', 'delitem'):
            want = list(ref)
            try:
                if op[0] == 'pop':
                    res = want.pop(*op[1:])
                else:
                    del want[op[1]]
                    res = None
                    ctx.n('deleted_slices', isinstance(op[1], slice))
            except Exception as e:
                ctx.n('read_error')
                ctx.check(st == 'exc' and type(val) is type(e), f'{op!r} of {len(ref)} values', st, val, e)
            else:
                ctx.check(st == 'ok', f'{op!r} of {len(ref)} values raised', val)
                ctx.check(val is res, f'{op!r}: returned / expected', val, res)
            ref = list(sl)
            ctx.same_seq(ref, want, f'contents after {op!r} of {len(want)}')
            ctx.eq(len(sl), len(want), f'len after {op!r}')
        else:
            ctx.check(st == 'ok' or name in ('remove',), f'{op[0]} raised', val)
            sl = after
            ref = list(sl)
        for _ in range(rng.randrange(nreads + 1)):
            n = len(ref)
            i = a_slice(rng, sl, n) if rng.random() < 0.5 else work.pick_index(rng, sl, n)
            ctx.log('read', i)
            read(ctx, sl, ref, i)
        if len(ref) <= 40 and rng.random() < 0.1:
            for i in range(-len(ref) - 2, len(ref) + 2):
                read(ctx, sl, ref, i)
            ctx.n('full_scans')
    # a full scan of every position, both ways of counting
    n = len(ref)
    step = 1 if n < 700 else n // 350
    for i in range(0, n, step):
        ctx.check(sl[i] is ref[i] and sl[i - n] is ref[i], f'position {i} of {n}', sl[i], sl[i - n], ref[i])
