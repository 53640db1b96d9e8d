"""C27: several containers at work at once - in threads, and inside each other's callbacks - against each alone."""

from .. import ops, work
from ..anyobj import contents, identical, pick_world, sane
from ..dictwork import Val
from ..values import Arg, Dom, Obj, k_half, k_mod7, k_neg
from . import c26
from .c26 import Counting, Reader, Schedule, points

ID = 'C27'
LEVEL = 'exploration'
TECHNIQUE = ('histories of several containers recorded alone, then replayed together: in threads switched at chosen bytecode '
             'instructions of the package, or one inside the key functions, comparisons, hashes, reprs and argument '
             'iterators of another; results and contents compared')
QUICK_CASES = 5000
RULE = ('a case records, for 2-4 containers of random classes, a random history of reads and changes each, with every result; '
        'the same histories on fresh containers, interleaved inside operations (threads handing over at chosen instructions, '
        'or steps of one history taken from within callbacks of another), must give the same results and contents; '
        'distinct by classes, domains, sizes, operations and switching points')
ASSUMPTIONS = ['each container is used by one history only', 'CPython with the GIL: threads switch between bytecode instructions']
REQUIRED = ['oracle_checks', 'schedules', 'switches', 'threads', 'results', 'nested', 'pokes', 'by_key', 'by_comparison',
            'by_iterator', 'same_class', 'narrow', 'list', 'keylist', 'set', 'dict']
setup = c26.setup


class Nest:
    """Takes a step of the next container's history from inside an operation on this one."""

    poke = None


class NestObj(Obj):
    __slots__ = ()

    def __lt__(self, other):
        if Nest.poke:
            Nest.poke('comparison')
        return Obj.__lt__(self, other)

    def __eq__(self, other):
        if Nest.poke:
            Nest.poke('comparison')
        return Obj.__eq__(self, other)

    def __hash__(self):
        if Nest.poke:
            Nest.poke('hash')
        return Obj.__hash__(self)

    def __repr__(self):
        if Nest.poke:
            Nest.poke('repr')
        return Obj.__repr__(self)


class NestKey:
    def __init__(self, key):
        self.key = key

    def __call__(self, v):
        if Nest.poke:
            Nest.poke('key')
        return self.key(v)

    def __repr__(self):
        return f'NestKey({self.key.__name__})'


class NestArg(Arg):
    """An iterable argument whose production uses another container."""

    __slots__ = ()

    def make(self):
        def produce():
            for x in self.items:
                if Nest.poke:
                    Nest.poke('iterator')
                yield x
        return produce()


def nest_dom(rng, kind):
    s = rng.choice((3, 12, 60))
    if kind == 'keylist' or kind != 'list' and rng.random() < 0.5:
        if rng.random() < 0.5:
            return Dom(f'nestobj/{s}|rank', lambda r: NestObj(r.randrange(s)), lambda r, v: NestObj(v.rank),
                       key=NestKey(k_rank), inject=True, keyprobe=lambda r: r.randrange(s))
        key = NestKey(rng.choice((k_neg, k_mod7, k_half)))
        return Dom(f'int/{s}|nest', lambda r: r.randrange(s), key=key, inject=key.key is k_neg,
                   keyprobe=lambda r: r.randrange(-s, s))
    return Dom(f'nestobj/{s}', lambda r: NestObj(r.randrange(s)), lambda r, v: NestObj(v.rank), inject=True)


def k_rank(v):
    return v.rank


class World:
    """A container to be built again and again, and its history."""

    def __init__(self, ctx, rng, like=None, nesting=False, narrow=None):
        if like is not None:
            self.kind, self.cls, self.dom = like.kind, like.cls, like.dom
            ctx.n('same_class')
        else:
            self.kind, self.cls, self.dom = pick_world(rng)
            if nesting:
                self.dom = nest_dom(rng, self.kind)
        ctx.n(self.kind)
        self.load = rng.choice((4, 4, 5, 7, None))
        vals = self.dom.some(rng, rng.choice((0, 3, 10, 30, 80)))
        self.first = [(v, Val(i)) for i, v in enumerate(vals)] if self.kind == 'dict' else vals
        self.ops, self.alone = [], []
        c = self.build()
        names = ops.names_for(self.kind, self.dom)
        if narrow:
            names = [rng.choice(names)] if like is None else like.names
            if like is None:
                ctx.n('narrow')
        self.names = names
        names, w = work.weights(rng, [n for n in names if n != 'repr' or not nesting])
        for _ in range(narrow or rng.choice((1, 2, 4, 8))):
            op = ops.gen(rng, self.kind, self.dom, c, list(c), rng.choices(names, w)[0])
            if nesting and rng.random() < 0.7:
                op = tuple(NestArg(x.kind, x.items) if isinstance(x, Arg) and x.kind in ('gen', 'list', 'iter', 'tuple') else x
                           for x in op)
            c, out = ops.apply(self.kind, c, op)
            self.ops.append(op)
            self.alone.append(out)
        self.end = contents(self.kind, c)

    def build(self):
        key = self.dom.key
        c = self.cls(key) if self.kind == 'dict' else self.cls(key=key)
        if self.load:
            c._reset(self.load)
        c.update(self.first)
        return c

    def __repr__(self):
        return f'{self.cls.__name__} {self.dom.name} {len(self.first)} {self.load}: {self.ops}'

    def judge(self, ctx, c, results, what):
        ctx.check(len(results) == len(self.ops), f'{what}: {len(results)} of {len(self.ops)} operations done')
        for op, got, want in zip(self.ops, results, self.alone):
            ctx.n('results')
            ctx.check(got[0] == want[0] and (ops.same(got[1], want[1]) or eqvals(got, want)),
                      f'{what}: {op} beside other containers / alone', got, want)
        ctx.check(identical(self.kind, contents(self.kind, c), self.end), f'{what}: contents beside other containers / alone',
                  contents(self.kind, c), self.end)
        sane(ctx, self.kind, c, self.dom, what)


def eqvals(a, b):
    """Outcomes holding freshly made objects: equal all through."""
    try:
        return bool(a == b) and repr(a) == repr(b)
    except Exception:
        return False


class Worker(Reader):
    """One thread working through the history of its own container."""

    def __init__(self, sched, world, plan):
        super().__init__(sched, world.kind, world.build(), world.ops, plan)

    def perform(self, op):
        self.c, out = ops.apply(self.kind, self.c, op)
        return out


def threads(ctx, rng):
    narrow = rng.random() < 0.4
    worlds = [World(ctx, rng, narrow=8 if narrow else None)]
    if narrow:
        # the same few operations in both: a whole one of the second at every stop of the first
        worlds.append(World(ctx, rng, like=worlds[0], narrow=24))
    for _ in range(0 if narrow else rng.choice((1, 1, 1, 2, 3))):
        worlds.append(World(ctx, rng, like=rng.choice(worlds) if rng.random() < 0.5 else None))
    sched = Schedule()
    for i, w in enumerate(worlds):
        c = w.build()
        with Counting() as k:
            for op in w.ops:
                c, _ = ops.apply(w.kind, c, op)
        plan = points(rng, k.seen, 24 if narrow else rng.choice((1, 2, 4, 12))) if k.n and not (narrow and i) else ()
        sched.readers.append(Worker(sched, w, plan))
        sched.readers[-1].polite = bool(narrow and i)
        ctx.log(f'thread {i}', repr(w), 'hands over at', str(sorted(plan)))
        ctx.shape('threads', w.kind, w.dom.name, len(w.first), [op[0] for op in w.ops], sorted(plan))
    sched.play()
    ctx.n('schedules')
    ctx.n('switches', sched.switches)
    ctx.n('threads', len(worlds))
    for i, (r, w) in enumerate(zip(sched.readers, worlds)):
        what = f'thread {i} of {len(worlds)}, {sched.switches} switches'
        if r.error is not None:
            ctx.fail(f'{what} raised {type(r.error).__name__}: {r.error}')
        w.judge(ctx, r.c, r.results, what)


def nested(ctx, rng):
    worlds = [World(ctx, rng, nesting=True)]
    for _ in range(rng.choice((1, 1, 2))):
        like = worlds[-1] if rng.random() < 0.4 else None
        worlds.append(World(ctx, rng, like=like, nesting=rng.random() < 0.7))
    stride = rng.choice((1, 1, 2, 3, 7))
    state = [[w.build(), [], 0] for w in worlds]
    calls = 0
    level = 0

    def advance(i):
        """The next operation of history i; its callbacks may advance history i + 1."""
        nonlocal level
        w, st = worlds[i], state[i]
        op = w.ops[st[2]]
        st[2] += 1
        was, level = level, i
        try:
            st[0], out = ops.apply(w.kind, st[0], op)
        finally:
            level = was
        st[1].append(out)

    def poke(how):
        nonlocal calls
        calls += 1
        i = level + 1
        if i < len(worlds) and calls % stride == 0 and state[i][2] < len(worlds[i].ops):
            ctx.n('pokes')
            ctx.n('by_' + how)
            advance(i)

    for i, w in enumerate(worlds):
        ctx.log(f'level {i}', repr(w))
        ctx.shape('nested', w.kind, w.dom.name, len(w.first), [op[0] for op in w.ops], stride)
    ctx.n('nested')
    Nest.poke = poke
    try:
        while state[0][2] < len(worlds[0].ops):
            advance(0)
    finally:
        Nest.poke = None
    for i, (w, st) in enumerate(zip(worlds, state)):
        while st[2] < len(w.ops):
            level = len(worlds)
            advance(i)
        w.judge(ctx, st[0], st[1], f'level {i} of {len(worlds)}')


def case(ctx):
    rng = ctx.rng
    for _ in range(2):
        (nested if rng.random() < 0.4 else threads)(ctx, rng)
