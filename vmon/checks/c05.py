"""C05: key-ordered lists identify values by equality, order by key."""

from .. import work
from ..values import keyed_dom

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = 'random histories, identity of the value acted on compared with a scan'
QUICK_CASES = 4000
RULE = ('a case is one random history on a sorted list with a key function; every removal, discard, membership, '
        'count, index and bisect (by value and by key) is compared with a scan of list(sl) taken just before: '
        'the value acted on must be the first equal one, by object identity; distinct by domain, profile and '
        'operation sequence; values include unorderable and unhashable ones and long runs of equal keys')
ASSUMPTIONS = ['values that are equal have equal keys']
REQUIRED = ['oracle_checks', 'removed_inside_run', 'absent_same_key', 'bisect_key', 'bisect_value', 'index', 'count',
            'contains', 'run_over_segments']


def first_equal(ref, v):
    for i, x in enumerate(ref):
        if x == v:
            return i
    return None


def case(ctx):
    rng = ctx.rng
    dom = keyed_dom(rng, inject=rng.choice((None, False, False)))
    prof = work.profile(rng)
    sl = work.build_list(rng, dom, prof, dom.some(rng, prof.n))
    ctx.log('build', str(prof), repr(dom))
    ctx.shape(dom.name, repr(prof))
    ctx.check(sl.key is dom.key, 'key attribute', sl.key)
    ref = list(sl)
    names, wts = work.weights(rng, work.LIST_MUTATORS, boost=('remove', 'discard', 'add'))
    probes = ('contains', 'count', 'index', 'bisect_left', 'bisect_right', 'bisect', 'bisect_key_left',
              'bisect_key_right', 'bisect_key')
    for _ in range(prof.ops):
        op = work.gen_list_op(rng, dom, sl, ref, rng.choices(names, wts)[0])
        ctx.log(*op)
        ctx.shape(op[0])
        sl, (st, val) = work.apply(sl, op)
        prev, ref = ref, list(sl)
        if op[0] in ('remove', 'discard'):
            i = first_equal(prev, op[1])
            keys = None
            if i is None:
                k = dom.key(op[1])
                if any(not (dom.key(x) < k or k < dom.key(x)) for x in prev):
                    ctx.n('absent_same_key')
                if op[0] == 'remove':
                    ctx.check(st == 'exc' and type(val) is ValueError, 'remove of an absent value', op, st, val)
                else:
                    ctx.check(st == 'ok', 'discard of an absent value raised', op, val)
                ctx.same_seq(ref, prev, f'{op!r} of an absent value changed the list')
            else:
                ctx.check(st == 'ok', f'{op!r} raised', val)
                if i and not dom.key(prev[i - 1]) < dom.key(prev[i]):
                    ctx.n('removed_inside_run')
                ctx.same_seq(ref, prev[:i] + prev[i + 1:], f'{op!r} must remove the first equal value')
        keys = work.keys_of(ref, dom.key)
        ctx.check(work.is_ascending(keys), 'keys not ascending', keys)
        lists = getattr(sl, '_lists', ())
        for _ in range(rng.randrange(1, 5)):
            nm = rng.choice(probes)
            if nm.startswith('bisect_key'):
                k = work.pick_key(rng, dom, ref)
                ctx.log(nm, k)
                st, val = work.apply(sl, (nm, k))[1]
                want = work.bisect_ref(keys, k, nm != 'bisect_key_left')
                ctx.n('bisect_key')
                ctx.check(st == 'ok' and val == want, f'{nm}({k!r}): got / expected', val, want)
                continue
            v = work.pick_value(rng, dom, ref)
            ctx.log(nm, v)
            st, val = work.apply(sl, (nm, v))[1]
            if nm.startswith('bisect'):
                want = work.bisect_ref(keys, dom.key(v), nm != 'bisect_left')
                ctx.n('bisect_value')
                ctx.check(st == 'ok' and val == want, f'{nm}({v!r}): got / expected', val, want)
                continue
            i = first_equal(ref, v)
            run = work.bisect_ref(keys, dom.key(v), True) - work.bisect_ref(keys, dom.key(v), False)
            if lists and run > max(map(len, lists)):
                ctx.n('run_over_segments')
            ctx.n(nm)
            if nm == 'contains':
                ctx.check(st == 'ok' and val == (i is not None), f'{v!r} in list: got / expected', val, i)
            elif nm == 'count':
                want = sum(1 for x in ref if x == v)
                ctx.check(st == 'ok' and val == want, f'count({v!r}): got / expected', val, want)
            elif i is None:
                ctx.check(st == 'exc' and type(val) is ValueError, f'index({v!r}) of an absent value', st, val)
            else:
                ctx.check(st == 'ok' and val == i, f'index({v!r}): got / expected', val, i)
