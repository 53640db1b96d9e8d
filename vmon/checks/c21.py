"""C21: pairs with equal contents but different histories or hashes, probed and driven on side by side."""

import hashlib
import json
import os
import random
import subprocess
import sys

from .. import ops, target, work
from ..dictwork import Val
from ..values import (
    Dom, any_dom, k_identity, k_list, k_neg, k_pair, k_str, plain_dom,
)
from ..target import SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet

ID = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('differential runs: equal contents reached by different histories must answer and evolve alike; one '
             'history replayed under different hash functions and hash seeds must give one transcript')
QUICK_CASES = 6000
RULE = ('a case is one of: two containers of one class brought to the same contents by different random histories '
        '(orders, bulk sizes, detours, copies, load factors), whose repr, positions, ranks, ranges, comparisons and '
        'the outcomes of a further common history are compared; one history over values with a salted, colliding or '
        'ordinary hash, whose transcripts must be equal; the same in a fresh process under another PYTHONHASHSEED; '
        'distinct by class, domain, size, histories and hash functions')
ASSUMPTIONS = ['values of one type, equal exactly when neither is less, with a repr that follows from the value',
               'hash functions are consistent with equality']
REQUIRED = ['oracle_checks', 'pairs', 'pair_reads', 'pair_pops', 'pair_ops', 'salted', 'hash_seeds', 'list', 'keylist', 'set',
            'dict', 'large', 'detours']


SALT = [0]


class Salted:
    """Ordered by rank; its hash depends on a salt."""

    __slots__ = ('rank',)

    def __init__(self, rank):
        self.rank = rank

    def __lt__(self, o):
        return self.rank < o.rank if isinstance(o, Salted) else NotImplemented

    def __le__(self, o):
        return self.rank <= o.rank if isinstance(o, Salted) else NotImplemented

    def __gt__(self, o):
        return self.rank > o.rank if isinstance(o, Salted) else NotImplemented

    def __ge__(self, o):
        return self.rank >= o.rank if isinstance(o, Salted) else NotImplemented

    def __eq__(self, o):
        return self.rank == o.rank if isinstance(o, Salted) else NotImplemented

    def __hash__(self):
        s = SALT[0]
        if s == 0:
            return self.rank
        if s == 1:
            return 7
        if s == 2:
            return -self.rank
        return hash((s, self.rank))

    def __repr__(self):
        return f'S{self.rank}'


def k_salted(v):
    return -v.rank


def pure_dom(rng, kind, n=0):
    """No ties, one type, value-like repr."""
    while True:
        if kind == 'keylist' or (kind in ('set', 'dict') and rng.random() < 0.4):
            s = rng.choice((6, 40, 300, 3000) if n < 500 else (3000, 10**5))
            key = rng.choice((k_neg, k_identity, k_pair, k_list, k_str))
            return Dom(f'int/{s}|{key.__name__}', lambda r, s=s: r.randrange(s), key=key, inject=True,
                       keyprobe=lambda r, s=s, key=key: key(r.randrange(s)))
        d = plain_dom(rng, hashable=kind in ('set', 'dict'))
        if d.name.split('/')[0] in ('int', 'str', 'words', 'bytes', 'tuple', 'bigint', 'list'):
            d._twin = None
            return d


def blank(rng, kind, cls, key):
    if kind == 'list':
        return cls()
    if kind == 'dict':
        return cls(key) if key is not None or rng.random() < 0.5 else cls()
    return cls(key=key)


def reach(ctx, rng, kind, cls, dom, want):
    """A container holding exactly `want`, by some history of its own."""
    c = blank(rng, kind, cls, dom.key)
    if rng.random() < 0.7:
        c._reset(rng.choice((4, 4, 5, 6, 7, 9, 16, 50, 1000)))
    todo = list(want)
    rng.shuffle(todo)
    if rng.random() < 0.3:
        todo = list(want)
        if rng.random() < 0.5:
            todo.reverse()
    extra = dom.some(rng, rng.choice((0, 0, 3, len(want) // 3 + 1))) if len(want) < 1000 else []
    if kind in ('set', 'dict'):
        keep = {x[0] for x in want} if kind == 'dict' else set(want)
        extra = [v for v in extra if v not in keep]
    if extra:
        ctx.n('detours')
    plan = rng.choice(('bulk', 'single', 'chunks')) if len(want) < 800 else rng.choice(('bulk', 'chunks'))
    work_list = [(v, True) for v in todo]
    for v in extra:
        work_list.insert(rng.randrange(len(work_list) + 1), ((v, Val(-1)) if kind == 'dict' else v, False))
    if plan == 'bulk':
        c.update([x for x, _ in work_list])
    elif plan == 'single':
        for x, _ in work_list:
            if kind == 'dict':
                if rng.random() < 0.2:
                    c[x[0]] = Val(-2)
                c[x[0]] = x[1]
            else:
                c.add(x)
            if rng.random() < 0.1:
                (c.peekitem if kind == 'dict' else c.__getitem__)(rng.randrange(len(c)))
    else:
        i = 0
        while i < len(work_list):
            k = rng.randrange(1, 2 + len(work_list) // 2)
            c.update([x for x, _ in work_list[i:i + k]])
            i += k
    # the detours back
    back = [x for x, keep in work_list if not keep]
    rng.shuffle(back)
    for x in back:
        if kind == 'dict':
            if x[0] in c and rng.random() < 0.5:
                del c[x[0]]
            else:
                c.pop(x[0], None)
        elif rng.random() < 0.3:
            # by position
            if kind == 'set' and x not in c:
                continue
            del c[c.index(x)]
        else:
            c.discard(x)
    if want and rng.random() < 0.4:
        # take some out and put them in again
        for x in rng.sample(list(want), min(len(want), rng.randrange(1, 12))):
            if kind == 'dict':
                del c[x[0]]
                c.setdefault(*x)
            else:
                c.remove(x)
                c.update([x])
    r = rng.random()
    if r < 0.1:
        c = c.copy()
    elif r < 0.2:
        c._reset(rng.choice((4, 6, 12, 1000)))
    if len(c) and rng.random() < 0.4:
        (c.peekitem if kind == 'dict' else c.__getitem__)(rng.randrange(len(c)))
    return c


def equal(a, b):
    """Equal outcomes: same types, same values, same repr."""
    return type(a) is type(b) and a == b and (isinstance(a, (set, frozenset)) or repr(a) == repr(b))


def flat(x):
    """Outcome data with unordered parts put in order and containers opened."""
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    if isinstance(x, tuple):
        return tuple(map(flat, x))
    if isinstance(x, list):
        return list(map(flat, x))
    return x


def history_pair(ctx, rng):
    kind = rng.choice(('list', 'keylist', 'set', 'dict'))
    ctx.n(kind)
    ctx.n('pairs')
    prof = work.profile(rng, 0.4)
    dom = pure_dom(rng, kind, prof.n)
    vals = dom.some(rng, prof.n)
    if kind in ('set', 'dict'):
        vals = list(dict.fromkeys(vals))
    want = [(v, Val(i)) for i, v in enumerate(vals)] if kind == 'dict' else vals
    cls = rng.choice({'list': (SortedList, SmallList), 'keylist': (SortedKeyList, SmallKeyList),
                      'set': (SortedSet, SubSet), 'dict': (SortedDict, SubDict)}[kind])
    ctx.log('world', cls.__name__, repr(dom), want)
    a = reach(ctx, rng, kind, cls, dom, want)
    b = reach(ctx, rng, kind, cls, dom, want)
    n = len(vals)
    if n > 100:
        ctx.n('large')
    ctx.check(len(a) == len(b) == n, 'lengths', len(a), len(b), n)
    ctx.check(repr(a) == repr(b), 'reprs differ', repr(a), repr(b))
    ctx.check(list(a) == list(b) and list(reversed(a)) == list(reversed(b)), 'iteration differs', list(a), list(b))
    # comparisons, each way and against a third
    ctx.check(a == b and b == a and not a != b and not b != a, 'equal contents compare unequal')
    if kind != 'dict':
        ctx.check(a <= b and a >= b and not a < b and not a > b, 'ordering of equals')
        third = reach(ctx, rng, kind, cls, dom, dom.some(rng, 4) + vals[:rng.randrange(n + 1)] if kind != 'set' else
                      list(dict.fromkeys(dom.some(rng, 4) + vals[:rng.randrange(n + 1)])))
        for f in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
            ctx.check(getattr(a, f)(third) == getattr(b, f)(third), f'{f} with a third container differs')
            ctx.check(getattr(third, f)(a) == getattr(third, f)(b), f'{f} of a third container differs')
    names, w = work.weights(rng, ops.names_for(kind, dom))
    ctx.shape('pair', cls.__name__, dom.name, n, tuple(names))
    for _ in range(prof.ops):
        op = ops.gen(rng, kind, dom, rng.choice((a, b)), list(a), rng.choices(names, w)[0])
        ctx.log(*op)
        a, x = ops.apply(kind, a, op)
        b, y = ops.apply(kind, b, op)
        ctx.n('pair_ops')
        fx, fy = flat(x), flat(y)
        ctx.check(equal(fx, fy), f'{op[0]}: outcomes differ', fx, fy)
    ctx.check(repr(a) == repr(b), 'reprs differ after a common history', repr(a), repr(b))
    for f in (lambda c: c.popitem(), lambda c: c.popitem(0), lambda c: c.popitem(len(c) // 2)) if kind == 'dict' else (
            lambda c: c.pop(), lambda c: c.pop(0), lambda c: c.pop(len(c) // 2), lambda c: c.pop(-len(c) // 3)):
        if len(a) > 1:
            ctx.n('pair_pops')
            fx, fy = f(a), f(b)
            ctx.check(equal(flat(fx), flat(fy)), 'popping differs', fx, fy)
    m = len(a)
    for i in range(0, m, max(1, m // 25)):
        ctx.n('pair_reads')
        sa, sb = (a.keys(), b.keys()) if kind == 'dict' else (a, b)
        v = sa[i]
        ctx.check(v == sb[i] and sa[i - m] == sb[i - m], f'position {i} differs', v, sb[i])
        ctx.check(a.index(v) == b.index(v) and a.bisect_left(v) == b.bisect_left(v) and
                  a.bisect_right(v) == b.bisect_right(v), 'ranks differ', v)
        ctx.check(list(a.irange(v)) == list(b.irange(v)), 'ranges differ', v)
        ctx.check(sa[i:] == sb[i:], 'slices differ', i)


# -- one history, several hash functions ------------------------------------------------


def transcript(seed, salted):
    """Everything a history shows, as strings that do not depend on identities."""
    rng = random.Random(f'transcript:{seed}')
    kind = rng.choice(('set', 'set', 'dict', 'dict', 'list', 'keylist') if not salted else ('set', 'set', 'dict', 'dict', 'keylist'))
    s = rng.choice((5, 30, 200, 2000))
    if salted:
        key = k_salted if kind == 'keylist' or rng.random() < 0.3 else None
        dom = Dom('salted', lambda r: Salted(r.randrange(s)), key=key, inject=True,
                  keyprobe=lambda r: -r.randrange(s))
    else:
        key = len_then_value if kind == 'keylist' or rng.random() < 0.3 else None
        dom = Dom('words', lambda r: f'w{r.randrange(s)}', key=key, inject=True,
                  keyprobe=lambda r: (2, f'w{r.randrange(s)}'))
    cls = {'list': SortedList, 'keylist': SortedKeyList, 'set': SortedSet, 'dict': SortedDict}[kind]
    c = blank(rng, kind, cls, key)
    c._reset(rng.choice((4, 5, 9, 1000)))
    n = rng.choice((0, 6, 40, 200))
    vals = dom.some(rng, n)
    c.update([(v, i) for i, v in enumerate(vals)] if kind == 'dict' else vals)
    out = [kind, f'{n}', show(c)]
    names, w = work.weights(rng, ops.names_for(kind, dom))
    for _ in range(rng.randrange(10, 40)):
        # (None: the choice of positions must not look at the segments)
        op = ops.gen(rng, kind, dom, None, list(c), rng.choices(names, w)[0])
        if op[0] == 'repr' and key is not None:
            continue
        c, x = ops.apply(kind, c, op)
        if 'viewread' == op[0] and op[2] == 'repr':
            continue
        out.append(f'{op[0]} -> {flat(x)!r}')
        out.append(show(c))
    return out


def len_then_value(v):
    return (len(v), v)


def show(c):
    return repr(list(c.items())) if isinstance(c, dict) else repr(list(c))


def salts(ctx, rng):
    seed = rng.randrange(10**9)
    ctx.n('salted')
    ctx.shape('salted', seed)
    ctx.log('history', str(seed))
    runs = []
    modes = [0] + rng.sample([1, 2, rng.randrange(3, 10**6), rng.randrange(3, 10**6)], 2)
    for m in modes:
        SALT[0] = m
        try:
            runs.append(transcript(seed, True))
        finally:
            SALT[0] = 0
    for m, r in zip(modes[1:], runs[1:]):
        compare(ctx, runs[0], r, f'hash function {modes[0]} and {m}')


def compare(ctx, a, b, what):
    ctx.counts['oracle_checks'] += max(len(a), len(b))
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.fail(f'one history, different transcripts under {what}; event {i} of {len(a)}', a[max(0, i - 2):i + 1],
                 b[max(0, i - 2):i + 1])


def hash_seeds(ctx, rng):
    seed = rng.randrange(10**9)
    count = 60
    ctx.n('hash_seeds')
    ctx.shape('hash seeds', seed)
    hs = str(rng.randrange(1, 2**32 - 1)) if rng.random() < 0.85 else '0'
    env = dict(os.environ, PYTHONHASHSEED=hs, VERIF_REPO=target.REPO)
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, '-B', '-m', 'vmon.checks.c21', str(seed), str(count)], cwd=root, env=env,
                       capture_output=True, text=True, timeout=300)
    ctx.log(f'histories {seed}..{seed + count - 1}, here and under PYTHONHASHSEED={hs}')
    if p.returncode:
        from ..core import Violation
        raise Violation(f'the histories failed under PYTHONHASHSEED={hs}:\n{p.stderr[-2000:]}')
    there = json.loads(p.stdout)
    for i in range(count):
        here = transcript(seed + i, False)
        ctx.n('seed_transcripts')
        ctx.counts['oracle_checks'] += len(here)
        if digest(here) != there[i]:
            q = subprocess.run([sys.executable, '-B', '-m', 'vmon.checks.c21', str(seed + i), 'full'], cwd=root, env=env,
                               capture_output=True, text=True, timeout=300)
            compare(ctx, here, json.loads(q.stdout), f'another hash seed ({hs})')
            ctx.fail('transcripts differ between processes')


def digest(lines):
    return hashlib.sha1('\n'.join(lines).encode()).hexdigest()


def case(ctx):
    rng = ctx.rng
    if ctx.case % 100 in (3, 57):
        hash_seeds(ctx, rng)
    elif ctx.case % 4 == 1:
        salts(ctx, rng)
    else:
        history_pair(ctx, rng)


if __name__ == '__main__':
    s = int(sys.argv[1])
    if sys.argv[2] == 'full':
        print(json.dumps(transcript(s, False)))
    else:
        print(json.dumps([digest(transcript(s + i, False)) for i in range(int(sys.argv[2]))]))
