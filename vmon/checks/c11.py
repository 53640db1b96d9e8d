"""C11: faults enumerated over every container operation; state audited after each."""

from collections import Counter, UserDict

from .. import work
from ..core import short
from ..target import SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet

ID = 'C11'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('fault injection enumerated over operations (incomparable, unhashable, unmappable values; iterables '
             'raising at every position; malformed arguments), state audited through every access path')
QUICK_CASES = 400
RULE = ('a case fixes a container, its contents and load factor and enumerates faults: for each operation, each '
        'kind of fault that applies and each position of the fault in the argument; the container is rebuilt for '
        'each; an evaluation is one case; non-trivial when at least one operation really raised; after each '
        'raise every access path is compared with every other, with the contents before and with what was offered')
ASSUMPTIONS = ['a value incomparable with another stays so for the whole operation (no comparison that fails once '
               'and then succeeds)', 'hashing stored values and testing them for equality with one another does not raise',
               '_reset is given a load factor of at least 4']
REQUIRED = ['oracle_checks', 'came_through', 'raised', 'raised_compare', 'raised_iter', 'raised_hash', 'raised_key', 'raised_eq', 'raised_shape',
            'partial', 'audits', 'big_world', 'big_bulk', 'list', 'keylist', 'set', 'dict', 'view']


class Boom(Exception):
    """The injected failure."""

    def __init__(self, *args):
        super().__init__(*args)
        FIRED[0] += 1


FIRED = [0]


ACTIVE = [False]
BANS = set()
BADKEYS = set()
EQBANS = set()
VEQBANS = set()


def banned(a, b):
    return ACTIVE[0] and (a.uid, b.uid) in BANS


def eq_banned(a, b):
    return ACTIVE[0] and EQBANS and (a.uid, b.uid) in EQBANS


class F:
    """Ordered by rank, except against the values it is banned from."""

    __slots__ = ('rank', 'uid')

    def __init__(self, rank, uid):
        self.rank = rank
        self.uid = uid

    def __lt__(self, o):
        if not isinstance(o, F):
            return NotImplemented
        if banned(self, o):
            raise Boom(self, o)
        return self.rank < o.rank

    def __gt__(self, o):
        if not isinstance(o, F):
            return NotImplemented
        if banned(self, o):
            raise Boom(self, o)
        return self.rank > o.rank

    def __le__(self, o):
        if not isinstance(o, F):
            return NotImplemented
        if banned(self, o):
            raise Boom(self, o)
        return self.rank <= o.rank

    def __ge__(self, o):
        if not isinstance(o, F):
            return NotImplemented
        if banned(self, o):
            raise Boom(self, o)
        return self.rank >= o.rank

    def __eq__(self, o):
        if isinstance(o, F) and eq_banned(self, o):
            raise Boom('==', self, o)
        return isinstance(o, F) and self.rank == o.rank

    def __hash__(self):
        return hash(self.rank)

    def __repr__(self):
        return f'F({self.rank}#{self.uid})'


class G:
    """Not ordered; its key is an F (or raises)."""

    __slots__ = ('f', 'tag', 'uid')

    def __init__(self, rank, uid, tag):
        self.f = F(rank, uid)
        self.tag = tag
        self.uid = uid

    def __eq__(self, o):
        if isinstance(o, G) and ACTIVE[0] and (self.uid, o.uid) in VEQBANS:
            raise Boom('==', self, o)
        return isinstance(o, G) and self.f.rank == o.f.rank and self.tag == o.tag

    def __hash__(self):
        return hash((self.f.rank, self.tag))

    def __repr__(self):
        return f'G({self.f.rank},{self.tag}#{self.uid})'


def key_g(v):
    if ACTIVE[0] and v.uid in BADKEYS:
        raise Boom('key', v)
    return v.f


def key_int(v):
    return -v


class Unhashable(F):
    __slots__ = ()
    __hash__ = None


class World:
    """One container kind with contents, rebuilt for every fault."""

    def __init__(self, rng, kind, flavour, n=None):
        self.rng = rng
        self.kind = kind
        self.flavour = flavour
        self.load = rng.choice((4, 4, 5, 6, 1000))
        big = n is not None
        if not big:
            n = rng.choice((0, 1, 2, 3, 5, 9, 9, 17, 26, 40, 45, 90))
        self.uid = iter(range(1, 10**9))
        self.dense = rng.random() < 0.5 and not (big and kind in ('set', 'dict'))
        self.span = 12 if self.dense else 10**6 if big else 200
        self.vals = []
        for _ in range(n):
            v = self.fresh()
            if kind in ('set', 'dict') and not big and v in self.vals:
                continue
            self.vals.append(v)
        if big and kind in ('set', 'dict'):
            self.vals = list(dict.fromkeys(self.vals))
        if kind == 'keylist' or flavour == 'G':
            self.key = {'G': key_g, 'int': key_int}[flavour]
        else:
            self.key = rng.choice((None, key_int)) if flavour == 'int' and kind != 'list' else None
        self.cls = {'list': SortedList, 'keylist': SortedKeyList, 'set': rng.choice((SortedSet, SubSet)),
                    'dict': rng.choice((SortedDict, SubDict))}[kind]
        self.indexed = rng.random() < 0.6

    def fresh(self):
        r = self.rng
        s = self.span
        if self.flavour == 'F':
            return F(r.randrange(s), next(self.uid))
        if self.flavour == 'G':
            return G(r.randrange(s), next(self.uid), r.randrange(3))
        return r.randrange(s)

    def twin(self, v):
        if self.flavour == 'F':
            return F(v.rank, next(self.uid))
        if self.flavour == 'G':
            return G(v.f.rank, next(self.uid), v.tag)
        return complex(v, 0)

    def build(self):
        ACTIVE[0] = False
        k = self.kind
        if k == 'list':
            c = SortedList()
            c._reset(self.load)
            c.update(self.vals)
        elif k == 'keylist':
            c = SortedKeyList(key=self.key)
            c._reset(self.load)
            c.update(self.vals)
        elif k == 'set':
            c = self.cls(key=self.key)
            c._reset(self.load)
            for v in self.vals:
                c.add(v)
        else:
            c = self.cls(self.key)
            c._reset(self.load)
            for v in self.vals:
                c[v] = ('old', v)
        if self.indexed and len(c):
            c.bisect_left(self.vals[0])
            (c.peekitem if k == 'dict' else c.__getitem__)(len(c) // 2)
        return c

    def kf(self, v):
        return v if self.key is None else self.key(v)


def snapshot(w, c):
    if w.kind == 'dict':
        return [(k, dict.__getitem__(c, k)) for k in list(c)]
    return list(c)


def audit(ctx, w, c, what):
    """Every access path tells the same story (faults are off)."""
    ctx.n('audits')
    ACTIVE[0] = False
    try:
        _audit(ctx, w, c, what)
    except Exception as e:
        if type(e).__name__ == 'Violation':
            raise
        ctx.fail(f'{what}: the container is unusable afterwards: {type(e).__name__}: {e}', w.cls.__name__)


def _audit(ctx, w, c, what):
    ref = list(c)
    n = len(ref)
    keys = [w.kf(v) for v in ref]
    ctx.check(work.is_ascending(keys), f'{what}: order broken', ref)
    ctx.check(len(c) == n, f'{what}: len / iteration', len(c), n, ref)
    ctx.same_seq(list(reversed(c)), ref[::-1], f'{what}: reversed')
    seq = c.keys() if w.kind == 'dict' else c
    few = range(n) if n <= 300 else sorted(w.rng.sample(range(n), 25))
    for i in few:
        ctx.check(seq[i] is ref[i] and seq[i - n] is ref[i], f'{what}: position {i} of {n}', seq[i], ref[i])
    ctx.same_seq(seq[:], ref, f'{what}: full slice')
    ctx.check(work.outcome_of(lambda: seq[n])[0] == 'exc', f'{what}: position past the end')
    for i in few:
        v, k = ref[i], keys[i]
        ctx.check(v in c, f'{what}: iterated but not found', v)
        lo, hi = work.bisect_ref(keys, k, False), work.bisect_ref(keys, k, True)
        ctx.check(c.bisect_left(v) == lo and c.bisect_right(v) == hi, f'{what}: ranks', v)
        ctx.check(c.index(v) == ref.index(v), f'{what}: index', v)
        if w.kind != 'dict':
            ctx.check(c.count(v) == ref.count(v), f'{what}: count', v)
    ctx.same_seq(list(c.irange()), ref, f'{what}: irange')
    ctx.same_seq(list(c.islice(0, n)), ref, f'{what}: islice')
    if w.kind == 'set':
        ctx.check(len(set(ref)) == n and c == set(ref), f'{what}: membership / iteration', ref)
        ctx.check(c.issuperset(ref) and c.issubset(ref), f'{what}: subset methods', ref)
    if w.kind == 'dict':
        raw = list(dict.keys(c))
        ctx.check(len(raw) == n and set(map(id, raw)) == set(map(id, ref)), f'{what}: dict side / list side', raw, ref)
        ctx.check([k for k, _ in c.items()] == ref and len(list(c.values())) == n, f'{what}: views', ref)
    c._check()
    # still usable: one value more, then gone again
    for _ in range(2):
        v = w.fresh()
        if w.kind == 'dict':
            had = v in c
            c[v] = 1
            ctx.check(c[v] == 1 and len(c) == n + (not had), f'{what}: adding afterwards', v)
            if not had:
                del c[v]
        elif w.kind == 'set':
            had = v in c
            c.add(v)
            ctx.check(v in c and len(c) == n + (not had), f'{what}: adding afterwards', v)
            if not had:
                c.remove(v)
        else:
            c.add(v)
            ctx.check(v in c and len(c) == n + 1 and c.count(v) == ref.count(v) + 1, f'{what}: adding afterwards', v)
            j = next(i for i, x in enumerate(c) if x is v)
            del c[j]
    now = list(c)
    ctx.check(len(now) == n and all(a == b for a, b in zip(now, ref)), f'{what}: contents after add and remove', now, ref)
    c._check()


def raising_iter(items, j):
    for i, x in enumerate(items):
        if i == j:
            raise Boom('iterable', j)
        yield x
    if j >= len(items):
        raise Boom('iterable', j)


class BadMapping(UserDict):
    """A mapping whose j-th lookup raises."""

    def __init__(self, pairs, j):
        self.j = -1
        super().__init__(pairs)
        self.j = j

    def __getitem__(self, key):
        if self.j == 0:
            raise Boom('mapping')
        self.j -= 1
        return super().__getitem__(key)


class BadDict(dict):
    """A dict whose j-th lookup raises."""

    def __init__(self, pairs, j):
        super().__init__(pairs)
        self.j = j

    def __getitem__(self, key):
        if self.j == 0:
            raise Boom('mapping')
        self.j -= 1
        return super().__getitem__(key)


# -- operations ------------------------------------------------------------------


def run(ctx, w, what, op, single=True, offered=(), allowed=None, fault='compare', keep=None, exact=True):
    """Rebuild, do op under fault, audit.

    single: a failing op must leave everything exactly as it was
    offered: what a failing bulk op may have added
    allowed: predicate on previously stored values the op may have removed
    """
    c = w.build()
    before = snapshot(w, c)
    ctx.log(what, fault)
    FIRED[0] = 0
    ACTIVE[0] = True
    try:
        op(c)
        ok = True
    except Exception as e:
        ok = False
        exc = e
    finally:
        ACTIVE[0] = False
    ctx.n('faults_tried')
    what = f'{w.cls.__name__}({len(before)} values, load {w.load}): {what} [{fault}]'
    if FIRED[0]:
        ctx.n('came_through')
        ctx.check(not ok, f'{what}: the exception was swallowed')
        ctx.check(type(exc) is Boom, f'{what}: another exception than the injected one came out', exc)
    if ok:
        if w.flavour != 'int':
            audit(ctx, w, c, what + ' succeeded')
        return
    ctx.n('raised')
    ctx.n('raised_' + fault)
    ctx.n(w.kind)
    ctx.nontrivial = True
    what += f' raised {type(exc).__name__}'
    try:
        after = snapshot(w, c)
    except KeyError as e:
        ctx.fail(f'{what}: iterated key is not in the dict', e)
    if single:
        if w.kind == 'dict':
            ok = len(before) == len(after) and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(before, after))
        else:
            ok = len(before) == len(after) and all(a is b for a, b in zip(before, after))
        ctx.check(ok and len(c) == len(before), f'{what}: it had an effect: before / after', before, after)
    else:
        if w.kind == 'dict':
            bk, ak = dict(before), dict(after)
            for k, v in bk.items():
                ctx.check(k in ak, f'{what}: lost a key', k, after)
                ctx.check(ak[k] is v or any(x == k and y is ak[k] for x, y in offered),
                          f'{what}: altered a value', k, v, ak[k])
            for k, v in ak.items():
                ctx.check(k in bk or any(x == k and y is v for x, y in offered), f'{what}: key from nowhere', k)
            ctx.check(len(ak) == len(after), f'{what}: a key twice', after)
            if len(ak) != len(bk):
                ctx.n('partial')
        else:
            pool = {}
            for v in before:
                pool[id(v)] = pool.get(id(v), 0) + 1
            extra = []
            for v in after:
                if pool.get(id(v)):
                    pool[id(v)] -= 1
                else:
                    extra.append(v)
            lost = [v for v in before if pool.get(id(v)) and not pool.__setitem__(id(v), pool[id(v)] - 1)]
            for v in lost:
                ctx.check(allowed is not None and allowed(v), f'{what}: lost a stored value', v, after)
            spare = Counter(id(v) for v in offered)
            for v in extra:
                ctx.check(spare[id(v)] > 0, f'{what}: value from nowhere', v, after)
                spare[id(v)] -= 1
            if extra or lost:
                ctx.n('partial')
    audit(ctx, w, c, what)


def aug(op):
    def ior(c, x):
        c |= x

    def iand(c, x):
        c &= x

    def isub(c, x):
        c -= x

    def ixor(c, x):
        c ^= x

    def iadd(c, x):
        c += x

    def imul(c, x):
        c *= x

    return {'|=': ior, '&=': iand, '-=': isub, '^=': ixor, '+=': iadd, '*=': imul}[op]


def meth(name):
    def f(c, *a, **k):
        r = getattr(c, name)(*a, **k)
        if hasattr(r, '__next__'):
            r = list(r)
        return r
    return f


def poisons(w):
    """New values that cannot be compared (or mapped): (fault, value) pairs; bans set per call."""
    rng = w.rng
    BANS.clear()
    BADKEYS.clear()
    EQBANS.clear()
    VEQBANS.clear()
    if w.flavour == 'int':
        return [('compare', x) for x in ('x', None, object(), 3 + 1j)]
    out = []
    partners = w.vals if len(w.vals) <= 6 else rng.sample(w.vals, 6)
    for p in partners:
        v = w.fresh()
        BANS.add((v.uid, p.uid))
        BANS.add((p.uid, v.uid))
        out.append(('compare', v))
    v = w.fresh()
    for p in w.vals:
        BANS.add((v.uid, p.uid))
        BANS.add((p.uid, v.uid))
    out.append(('compare', v))
    if w.vals:
        # equal to a stored value, but incomparable with its neighbours
        t = w.twin(rng.choice(w.vals))
        for p in w.vals:
            BANS.add((t.uid, p.uid))
            BANS.add((p.uid, t.uid))
        out.append(('compare', t))
    if w.key is not None and w.flavour == 'G':
        v = w.fresh()
        BADKEYS.add(v.uid)
        out.append(('key', v))
        if w.vals:
            t = w.twin(rng.choice(w.vals))
            BADKEYS.add(t.uid)
            out.append(('key', t))
    # equal hash, but the equality test raises
    for i, p in enumerate(w.vals if len(w.vals) <= 3 else rng.sample(w.vals, 3)):
        t = w.twin(p)
        bans = VEQBANS if w.flavour == 'G' and i else EQBANS
        for q in w.vals:
            if hash(q) == hash(p):
                bans.add((t.uid, q.uid))
                bans.add((q.uid, t.uid))
        out.append(('eq', t))
    return out


def twins(w):
    """Equal to stored values, but unorderable."""
    if w.flavour != 'int' or not w.vals:
        return []
    return [complex(v, 0) for v in w.rng.sample(w.vals, min(4, len(w.vals)))]


def bulk_sizes(w, ratio):
    n = len(w.vals)
    near = n // ratio
    return sorted({0, 1, 2, max(0, near - 1), near, near + 1, near + 3})


def bulks(w, ratio, p):
    """Lists of good values with p somewhere among them."""
    rng = w.rng
    for k in bulk_sizes(w, ratio):
        good = [w.fresh() for _ in range(k)]
        j = rng.randrange(k + 1)
        yield good[:j] + [p] + good[j:]


def do_list(ctx, w):
    for fault, p in poisons(w):
        for name in ('add', 'remove', 'discard', '__contains__', 'count', 'index', 'bisect_left', 'bisect_right',
                     'bisect'):
            run(ctx, w, f'{name}({short(p)})', lambda c: meth(name)(c, p), fault=fault)
        for a in ((p,), (None, p), (p, p)):
            run(ctx, w, f'irange{short(a)}', lambda c: meth('irange')(c, *a), fault=fault)
        for vs in bulks(w, 4, p):
            kind = w.rng.choice((list, tuple, iter))
            run(ctx, w, f'update({short(vs)})', lambda c: c.update(kind(vs)), single=False, offered=vs, fault=fault)
            run(ctx, w, f'+= {short(vs)}', lambda c: aug('+=')(c, kind(vs)), single=False, offered=vs, fault=fault)
            run(ctx, w, f'+ {short(vs)}', lambda c: c + vs, fault=fault)
    if w.flavour != 'int':
        # new values incomparable with one another only
        BANS.clear()
        for k in bulk_sizes(w, 4):
            if k < 2:
                continue
            vs = [w.fresh() for _ in range(k)]
            a, b = w.rng.sample(vs, 2)
            BANS.update(((a.uid, b.uid), (b.uid, a.uid)))
            run(ctx, w, f'update({short(vs)}) incomparable among themselves', lambda c: c.update(vs), single=False,
                offered=vs)
    for k in bulk_sizes(w, 4):
        vs = [w.fresh() for _ in range(k)]
        for j in range(k + 1):
            run(ctx, w, f'update(iterable raising at {j} of {k})', lambda c: c.update(raising_iter(vs, j)),
                single=False, offered=vs, fault='iter')
            run(ctx, w, f'+= iterable raising at {j} of {k}', lambda c: aug('+=')(c, raising_iter(vs, j)),
                single=False, offered=vs, fault='iter')
            run(ctx, w, f'+ iterable raising at {j} of {k}', lambda c: c + raising_iter(vs, j), fault='iter')
    n = len(w.vals)
    big = n + 7
    run(ctx, w, 'update(5)', lambda c: c.update(5), fault='shape')
    run(ctx, w, '+= 5', lambda c: aug('+=')(c, 5), fault='shape')
    run(ctx, w, '*= "x"', lambda c: aug('*=')(c, 'x'), fault='shape')
    run(ctx, w, '*= 1.5', lambda c: aug('*=')(c, 1.5), fault='shape')
    for i in ('a', None, 0.5, n / 2 + 0.25, big, -big, (0, 1)):
        run(ctx, w, f'pop({i!r})', lambda c: c.pop(i), fault='shape')
        run(ctx, w, f'del [{i!r}]', lambda c: c.__delitem__(i), fault='shape')
        run(ctx, w, f'[{i!r}]', lambda c: c[i], fault='shape')
    for s in (slice(None, None, 0), slice('a', None), slice(0, 3.5), slice(None, None, 'b')):
        run(ctx, w, f'del [{s!r}]', lambda c: c.__delitem__(s), fault='shape')
        run(ctx, w, f'[{s!r}]', lambda c: c[s], fault='shape')
    v = w.fresh()
    for name, a in (('append', (v,)), ('extend', ([v],)), ('insert', (0, v)), ('reverse', ()),
                    ('__setitem__', (0, v)), ('__setitem__', (slice(0, 2), [v]))):
        run(ctx, w, f'{name}{a!r}', lambda c: getattr(c, name)(*a), fault='shape')


def do_set(ctx, w):
    for fault, p in poisons(w):
        for name in ('add', 'remove', 'discard', 'index', 'bisect_left', 'bisect_right', 'bisect'):
            run(ctx, w, f'{name}({short(p)})', lambda c: meth(name)(c, p), fault=fault)
        run(ctx, w, f'irange({short(p)})', lambda c: meth('irange')(c, p), fault=fault)
        for vs in bulks(w, 4, p):
            bulk_set(ctx, w, vs, fault)
    for t in twins(w):
        for name in ('add', 'remove', 'discard', 'index'):
            run(ctx, w, f'{name}({t!r})', lambda c: meth(name)(c, t))
        for vs in bulks(w, 4, t):
            bulk_set(ctx, w, vs, 'compare')
    for k in bulk_sizes(w, 4):
        vs = [w.fresh() for _ in range(k)]
        own = w.vals[: k]
        for j in range(k + 1):
            for name in ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update'):
                src = own if len(own) == k and w.rng.random() < 0.5 else vs
                run(ctx, w, f'{name}(iterable raising at {j} of {k})', lambda c: getattr(c, name)(raising_iter(src, j)),
                    single=name in ('intersection_update', 'symmetric_difference_update'), offered=src,
                    allowed=(lambda v: v in src[:j]) if name == 'difference_update' else None, fault='iter')
            op = w.rng.choice(('|=', '&=', '-=', '^='))
            run(ctx, w, f'{op} iterable raising at {j} of {k}', lambda c: aug(op)(c, raising_iter(vs, j)),
                single=op in ('&=', '^='), offered=vs, allowed=(lambda v: v in vs[:j]) if op == '-=' else None,
                fault='iter')
            name = w.rng.choice(('union', 'intersection', 'difference', 'symmetric_difference'))
            run(ctx, w, f'{name}(iterable raising at {j} of {k})', lambda c: getattr(c, name)(raising_iter(vs, j)),
                fault='iter')
        # the second of two iterables raises
        for name in ('update', 'difference_update', 'intersection_update'):
            own = w.vals[: k + 2]
            run(ctx, w, f'{name}(own, raising)', lambda c: getattr(c, name)(own, raising_iter(vs, k)),
                single=name != 'difference_update', offered=vs, allowed=lambda v: v in own or v in vs, fault='iter')
            run(ctx, w, f'{name}(own, 5)', lambda c: getattr(c, name)(own, 5),
                single=name != 'difference_update', offered=own, allowed=lambda v: v in own, fault='shape')
    bad = [[1], {}, set()] + ([Unhashable(3, next(w.uid))] if w.flavour == 'F' else [])
    for b in bad:
        for name in ('add', 'remove', 'discard', '__contains__', 'count'):
            run(ctx, w, f'{name}({b!r})', lambda c: meth(name)(c, b), fault='hash')
        good = [w.fresh() for _ in range(3)]
        own = w.vals[:3]
        for vs in ([b], good + [b], own + [b], [b] + own):
            for name in ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update'):
                run(ctx, w, f'{name}({vs!r})', lambda c: getattr(c, name)(vs), single=name != 'difference_update',
                    offered=vs, allowed=lambda v: v in vs, fault='hash')
            op = w.rng.choice(('|=', '&=', '-=', '^='))
            run(ctx, w, f'{op} {vs!r}', lambda c: aug(op)(c, vs), single=op != '-=', offered=vs,
                allowed=lambda v: v in vs, fault='hash')
    for name in ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'union',
                 'intersection', 'difference', 'symmetric_difference'):
        run(ctx, w, f'{name}(5)', lambda c: getattr(c, name)(5), fault='shape')
    for op in ('|=', '&=', '-=', '^='):
        run(ctx, w, f'{op} 5', lambda c: aug(op)(c, 5), fault='shape')
    n = len(w.vals)
    for i in ('a', None, 0.5, n / 2 + 0.25, n + 7, -n - 7):
        run(ctx, w, f'pop({i!r})', lambda c: c.pop(i), fault='shape')
        run(ctx, w, f'del [{i!r}]', lambda c: c.__delitem__(i), fault='shape')
    for s in (slice(None, None, 0), slice('a', None), slice(0, 3.5), slice(None, None, 'b')):
        run(ctx, w, f'del [{s!r}]', lambda c: c.__delitem__(s), fault='shape')


def bulk_set(ctx, w, vs, fault):
    rng = w.rng
    parts = [vs] if rng.random() < 0.6 else [vs[:1], vs[1:]]
    forms = lambda: [rng.choice((list, tuple, set, iter, frozenset))(p) for p in parts]  # noqa: E731
    removing = lambda v: v in vs  # noqa: E731
    run(ctx, w, f'update({short(vs)})', lambda c: c.update(*forms()), single=False, offered=vs, fault=fault)
    run(ctx, w, f'|= {short(vs)}', lambda c: aug('|=')(c, forms()[0]), single=False, offered=vs, fault=fault)
    run(ctx, w, f'difference_update({short(vs)})', lambda c: c.difference_update(*forms()), single=False,
        allowed=removing, fault=fault)
    run(ctx, w, f'-= {short(vs)}', lambda c: aug('-=')(c, forms()[0]), single=False, allowed=removing, fault=fault)
    own = vs + w.vals[: rng.randrange(len(w.vals) + 1)]
    for form in (list, set, SortedSet if fault == 'never' else frozenset):
        run(ctx, w, f'intersection_update({short(own)})', lambda c: c.intersection_update(form(own)), single=False,
            offered=own, allowed=lambda v: True if v not in own else False, fault=fault)
    run(ctx, w, f'&= {short(own)}', lambda c: aug('&=')(c, own), single=False, offered=own,
        allowed=lambda v: v not in own, fault=fault)
    run(ctx, w, f'symmetric_difference_update({short(vs)})', lambda c: c.symmetric_difference_update(forms()[0]),
        single=False, offered=vs, allowed=removing, fault=fault)
    run(ctx, w, f'^= {short(own)}', lambda c: aug('^=')(c, own), single=False, offered=own,
        allowed=lambda v: v in own, fault=fault)
    name = rng.choice(('union', 'intersection', 'difference', 'symmetric_difference'))
    run(ctx, w, f'{name}({short(vs)})', lambda c: getattr(c, name)(vs), fault=fault)


def do_dict(ctx, w):
    for fault, p in poisons(w):
        for name, a in (('__setitem__', (p, 1)), ('setdefault', (p, 1)), ('setdefault', (p,)), ('__delitem__', (p,)),
                        ('pop', (p,)), ('pop', (p, 1)), ('__getitem__', (p,)), ('get', (p,)), ('index', (p,)),
                        ('bisect_left', (p,)), ('bisect_right', (p,)), ('irange', (p,))):
            run(ctx, w, f'{name}{short(a)}', lambda c: meth(name)(c, *a), fault=fault)
        for vs in bulks(w, 10, p):
            bulk_dict(ctx, w, vs, fault)
    for t in twins(w):
        for name, a in (('__delitem__', (t,)), ('pop', (t,)), ('pop', (t, 1)), ('index', (t,))):
            run(ctx, w, f'{name}{a!r}', lambda c: meth(name)(c, *a))
        for vs in bulks(w, 10, t):
            bulk_dict(ctx, w, vs, 'compare')
    for k in bulk_sizes(w, 10):
        ps = [(w.fresh(), ('new', i)) for i in range(k)]
        for j in range(k + 1):
            for name in ('update', '|='):
                f = (lambda c, x: c.update(x)) if name == 'update' else aug('|=')
                run(ctx, w, f'{name} pairs raising at {j} of {k}', lambda c: f(c, raising_iter(ps, j)), single=False,
                    offered=ps, fault='iter')
                run(ctx, w, f'{name} mapping raising at {j} of {k}', lambda c: f(c, BadMapping(dict(ps), j)),
                    single=False, offered=ps, fault='iter')
                run(ctx, w, f'{name} dict raising at {j} of {k}', lambda c: f(c, BadDict(dict(ps), j)),
                    single=False, offered=ps, fault='iter')
            for bad in (5, (1,), (1, 2, 3), ([], 1), ()):
                qs = ps[:j] + [bad] + ps[j:]
                run(ctx, w, f'update with pair {bad!r} at {j} of {k}', lambda c: c.update(qs), single=False,
                    offered=ps, fault='shape')
            qs = ps[:j] + [([], 1)] + ps[j:]
            run(ctx, w, f'|= with unhashable key at {j} of {k}', lambda c: aug('|=')(c, qs), single=False,
                offered=ps, fault='hash')
    for b in ([1], {}, set()):
        for name, a in (('__setitem__', (b, 1)), ('setdefault', (b, 1)), ('__delitem__', (b,)), ('pop', (b,)),
                        ('pop', (b, 1)), ('__contains__', (b,)), ('get', (b,)), ('__getitem__', (b,))):
            run(ctx, w, f'{name}{a!r}', lambda c: meth(name)(c, *a), fault='hash')
    for a in ((5,), ((1, 2, 3),), ({}, {}), (None,)):
        run(ctx, w, f'update{a!r}', lambda c: c.update(*a), fault='shape')
    run(ctx, w, '|= 5', lambda c: aug('|=')(c, 5), fault='shape')
    run(ctx, w, '| 5', lambda c: c | 5, fault='shape')
    run(ctx, w, '| []', lambda c: c | [], fault='shape')
    n = len(w.vals)
    for i in ('a', None, 0.5, n / 2 + 0.25, n + 7, -n - 7):
        run(ctx, w, f'popitem({i!r})', lambda c: c.popitem(i), fault='shape')
        run(ctx, w, f'peekitem({i!r})', lambda c: c.peekitem(i), fault='shape')
        for vn in ('keys', 'items', 'values'):
            ctx.n('view')
            run(ctx, w, f'del {vn}()[{i!r}]', lambda c: getattr(c, vn)().__delitem__(i), fault='shape')
    for s in (slice(None, None, 0), slice('a', None), slice(0, 3.5), slice(None, None, 'b')):
        for vn in ('keys', 'items', 'values'):
            run(ctx, w, f'del {vn}()[{s!r}]', lambda c: getattr(c, vn)().__delitem__(s), fault='shape')


def bulk_dict(ctx, w, vs, fault):
    ps = [(v, ('new', i)) for i, v in enumerate(vs)]
    rng = w.rng
    for form in (list, dict, rng.choice((iter, UserDict, tuple))):
        arg = (lambda: UserDict(dict(ps))) if form is UserDict else (lambda: form(ps))
        run(ctx, w, f'update({short(ps)}) as {form.__name__}', lambda c: c.update(arg()), single=False, offered=ps,
            fault=fault)
    run(ctx, w, f'|= {short(ps)}', lambda c: aug('|=')(c, dict(ps)), single=False, offered=ps, fault=fault)
    run(ctx, w, f'| {short(ps)}', lambda c: c | dict(ps), fault=fault)
    run(ctx, w, f'reflected | {short(ps)}', lambda c: dict(ps) | c, fault=fault)
    if not w.vals:
        run(ctx, w, f'update({short(ps)}, kw)', lambda c: c.update(dict(ps), zz=1), single=False,
            offered=ps + [('zz', 1)], fault=fault)


WORLDS = [('list', 'F'), ('list', 'int'), ('keylist', 'G'), ('keylist', 'int'), ('set', 'F'), ('set', 'G'),
          ('set', 'int'), ('dict', 'F'), ('dict', 'G'), ('dict', 'int')]
DO = {'list': do_list, 'keylist': do_list, 'set': do_set, 'dict': do_dict}


def big(ctx, w):
    """Bulk operations on containers of hundreds and thousands of values, failing at any point."""
    rng = w.rng
    n = len(w.vals)
    ratio = 10 if w.kind == 'dict' else 4
    ps = poisons(w)
    for fault, p in rng.sample(ps, min(2, len(ps))) + [('compare', t) for t in twins(w)[:1]]:
        for name in ('__contains__', 'index') if w.kind in ('list', 'keylist') else ():
            run(ctx, w, f'{name}({short(p)})', lambda c: meth(name)(c, p), fault=fault)
        for k in (n // ratio // 2, n // ratio + 3, n + 50):
            vs = [w.fresh() for _ in range(k)]
            vs.insert(rng.randrange(k + 1), p)
            ctx.n('big_bulk')
            if w.kind == 'dict':
                bulk_dict(ctx, w, vs, fault)
            elif w.kind == 'set':
                bulk_set(ctx, w, vs, fault)
            else:
                run(ctx, w, f'update({k})', lambda c: c.update(vs), single=False, offered=vs, fault=fault)
                run(ctx, w, f'+= {k}', lambda c: aug('+=')(c, vs), single=False, offered=vs, fault=fault)
                run(ctx, w, f'+ {k}', lambda c: c + vs, fault=fault)
    for k in (n // ratio // 2, n // ratio + 3):
        j = rng.choice((0, 1, k // 2, k - 1, k))
        if w.kind == 'dict':
            vs = [(w.fresh(), ('new', i)) for i in range(k)]
            names = ('update', '|=')
        elif w.kind == 'set':
            vs = [w.fresh() for _ in range(k)]
            names = ('update', 'intersection_update', 'symmetric_difference_update', '|=')
        else:
            vs = [w.fresh() for _ in range(k)]
            names = ('update', '+=')
        for name in names:
            run(ctx, w, f'{name} raising at {j} of {k}', lambda c: (aug(name) if '=' in name else meth(name))(c, raising_iter(vs, j)),
                single=name[0] in 'is', offered=vs, fault='iter')
    if w.kind in ('list', 'keylist'):
        run(ctx, w, '*= "x"', lambda c: aug('*=')(c, 'x'), fault='shape')
        run(ctx, w, '*= 1.5', lambda c: aug('*=')(c, 1.5), fault='shape')


def case(ctx):
    rng = ctx.rng
    if ctx.case % 40 == 21:
        kind, flavour = rng.choice(WORLDS)
        w = World(rng, kind, flavour, rng.choice((700, 1300, 2600)))
        ctx.n('big_world')
        ctx.shape('big', kind, flavour, w.load, len(w.vals), w.indexed)
        ctx.log('big world', kind, flavour, str(w.load), len(w.vals))
        big(ctx, w)
        return
    kind, flavour = WORLDS[(ctx.case // 8) % len(WORLDS)]
    w = World(rng, kind, flavour)
    ctx.shape(kind, flavour, w.load, len(w.vals), w.indexed)
    ctx.log('world', kind, flavour, str(w.load), w.vals)
    DO[kind](ctx, w)
    ctx.shape(sorted(ctx.counts.items()))
