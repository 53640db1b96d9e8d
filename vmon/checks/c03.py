"""C03: value search against the bisect module and plain lists."""

from .. import work
from ..values import any_dom

ID = 'C03'
LEVEL = 'exploration'
TECHNIQUE = 'random histories, differential oracle against bisect and plain lists'
QUICK_CASES = 5000
RULE = ('a case is one random history of mutations on a sorted list (plain or keyed) with searches in between '
        '(bisect_left/right/bisect, count, index with every kind of start and stop, in; stored, equal-typed-'
        'differently and absent values), each compared with the bisect module, list.count, list.index and in '
        'on list(sl) taken just before; distinct by domain, profile and operation sequence')
ASSUMPTIONS = ['iteration order is the reference (its correctness is C01)',
               'values that are equal have equal keys']
REQUIRED = ['oracle_checks', 'bisect', 'count_present', 'count_absent', 'index_found', 'index_error',
            'contains_present', 'contains_absent', 'ties_across_segments']


def equal_positions(ref, v):
    return [i for i, x in enumerate(ref) if x == v]


def search(ctx, sl, ref, dom, op):
    name, v = op[0], op[1]
    st, val = work.apply(sl, op)[1]
    if name.startswith('bisect'):
        ctx.n('bisect')
        want = work.bisect_ref(work.keys_of(ref, dom.key), dom.key_of(v), name != 'bisect_left')
        ctx.check(st == 'ok' and val == want, f'{op!r} of {len(ref)} values: got / expected', val, want)
        return
    eqs = equal_positions(ref, v)
    if len(eqs) > 1:
        lists = getattr(sl, '_lists', ())
        if lists and max(map(len, lists)) < len(eqs):
            ctx.n('ties_across_segments')
    if name == 'count':
        ctx.n('count_present' if eqs else 'count_absent')
        ctx.check(st == 'ok' and val == len(eqs), f'count({v!r}): got / expected', val, len(eqs))
    elif name == 'contains':
        ctx.n('contains_present' if eqs else 'contains_absent')
        ctx.check(st == 'ok' and val == bool(eqs), f'{v!r} in list: got / expected', val, bool(eqs))
    else:
        try:
            want = ref.index(*op[1:])
        except ValueError:
            ctx.n('index_error')
            ctx.check(st == 'exc' and type(val) is ValueError,
                      f'index{op[1:]!r} should raise ValueError', st, val, eqs)
        else:
            ctx.n('index_found')
            ctx.check(st == 'ok' and val == want, f'index{op[1:]!r}: got / expected', val, want, eqs)


NAMES = ('bisect_left', 'bisect_right', 'bisect', 'count', 'index', 'index', 'index', 'contains')


def case(ctx):
    rng = ctx.rng
    dom = any_dom(rng)
    prof = work.profile(rng)
    values = dom.some(rng, prof.n)
    sl = work.build_list(rng, dom, prof, values)
    ctx.log('build', str(prof), repr(dom))
    ctx.shape(dom.name, repr(prof))
    ref = list(sl)
    names, wts = work.weights(rng, work.LIST_MUTATORS, boost=('add', 'remove', 'pop'))
    for _ in range(prof.ops):
        name = rng.choices(names, wts)[0]
        op = work.gen_list_op(rng, dom, sl, ref, name)
        ctx.log(*op)
        ctx.shape(name)
        sl, (st, val) = work.apply(sl, op)
        ref = list(sl)
        for _ in range(rng.randrange(1, 5)):
            sop = work.gen_list_op(rng, dom, sl, ref, rng.choice(NAMES))
            if sop[0] == 'index' and rng.random() < 0.5 and ref:
                # start and stop close to the run of equal values
                eqs = equal_positions(ref, sop[1])
                if eqs:
                    n = len(ref)
                    a = rng.choice((eqs[0], eqs[-1])) + rng.choice((-1, 0, 1))
                    b = rng.choice((eqs[0], eqs[-1])) + rng.choice((-1, 0, 1, 2))
                    a = max(0, a)
                    b = max(0, b)
                    if rng.random() < 0.4 and a < n:
                        a -= n
                    if rng.random() < 0.4 and b < n:
                        b -= n
                    sop = ('index', sop[1], a, b) if rng.random() < 0.7 else ('index', sop[1], a)
            ctx.log(*sop)
            search(ctx, sl, ref, dom, sop)
    if len(ref) <= 60:
        probes = list(ref) + dom.some(rng, 5)
        for v in probes:
            for nm in ('bisect_left', 'bisect_right', 'count', 'index', 'contains'):
                search(ctx, sl, ref, dom, (nm, v))
