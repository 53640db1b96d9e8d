"""C26: reads interrupted at, or switched between threads at, chosen bytecode instructions of the package."""

import copy
import gc
import pickle
import random
import sys
import threading
from types import CodeType, FunctionType

from .. import ops, work
from ..anyobj import contents, identical, make, pick_world, sane
from ..target import PKG_DIR
from .c22 import READS

ID = 'C26'
LEVEL = 'exploration'
TECHNIQUE = ('deterministic schedules: a sys.monitoring hook on the instructions of the package interrupts a read there, or '
             'hands control to another reading thread; results compared with the same reads done alone, then an audit')
QUICK_CASES = 3000
RULE = ('a case makes a container of a random class with some history (positional index built or not) and either raises an '
        'asynchronous exception at chosen instructions inside random read-only operations, a fresh container each, or runs '
        '2-4 threads of read-only operations on one container, switching threads at chosen instructions; every completed '
        'read must return what it returns alone, and afterwards the container must hold the identical contents and agree '
        'with itself through every access path; distinct by class, domain, size, operations and switching points')
ASSUMPTIONS = ['nothing changes the container meanwhile', 'CPython with the GIL: threads switch between bytecode instructions',
               'interruptions inside the standard library and inside value code are not injected']
REQUIRED = ['oracle_checks', 'interrupted', 'distinct_points_per_worker', 'schedules', 'switches', 'threads', 'results', 'inside_index_build', 'siblings', 'list', 'keylist',
            'set', 'dict']

TOOL = 5
WHERE = set()


class Interrupt(BaseException):
    """Like KeyboardInterrupt: may come between any two instructions."""


def package_codes():
    pkg = PKG_DIR + '/'
    todo = [f.__code__ for f in gc.get_objects() if type(f) is FunctionType and f.__code__.co_filename.startswith(pkg)]
    seen = set()
    while todo:
        c = todo.pop()
        if c not in seen:
            seen.add(c)
            todo += [k for k in c.co_consts if isinstance(k, CodeType)]
    return seen


class Hook:
    """What happens at an instruction of the package, per thread."""

    def __init__(self):
        self.local = threading.local()

    def __call__(self, code, offset):
        act = getattr(self.local, 'act', None)
        if act is not None:
            act(code, offset)


HOOK = Hook()


def setup(_w):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'vmon-preempt')
    mon.register_callback(TOOL, mon.events.INSTRUCTION, HOOK)
    for c in package_codes():
        mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)


class Counting:
    def __init__(self, stop=None):
        self.n, self.stop = 0, stop
        self.seen = [] if stop is None else None

    def __call__(self, code, offset):
        self.n += 1
        if self.seen is not None:
            self.seen.append((code, offset))
        if self.n == self.stop:
            HOOK.local.act = None
            raise Interrupt

    def __enter__(self):
        HOOK.local.act = self
        return self

    def __exit__(self, *exc):
        HOOK.local.act = None
        return False


def points(rng, seen, k):
    """k instruction counts: anywhere, or spread over the functions that ran, however long or often."""
    by = {}
    for i, (code, offset) in enumerate(seen, 1):
        by.setdefault(code, {}).setdefault(offset, []).append(i)
    codes = list(by)
    out = set()
    for _ in range(k):
        if rng.random() < 0.4:
            out.add(rng.randrange(1, len(seen) + 1))
        else:
            at = by[rng.choice(codes)]
            out.add(rng.choice(at[rng.choice(list(at))]))
    return sorted(out)


# -- reads -----------------------------------------------------------------------


def special(name):
    return {'pickle': lambda c: pickle.loads(pickle.dumps(c)), 'copycopy': copy.copy, 'deepcopy': lambda c: len(copy.deepcopy(c)),
            '_check': lambda c: c._check(), 'half_iter': half_iter, 'half_islice': half_islice}[name]


def half_iter(c):
    it = iter(c)
    return [next(it, None) for _ in range(len(c) // 2 + 1)]


def half_islice(c):
    it = c.islice(len(c) // 3, reverse=True)
    return [next(it, None) for _ in range(len(c) // 3 + 1)]


def perform(kind, c, op):
    if op[0] == 'special':
        try:
            return ('ok', ops.norm(special(op[1])(c)))
        except Exception as e:
            return ('exc', ops.exc(e))
    return ops.apply(kind, c, op)[1]


def pick_name(rng, kind, dom):
    if rng.random() < 0.12:
        names = ['pickle', 'copycopy', 'deepcopy', 'half_iter', 'half_islice'] + ['_check'] * ('lt' not in dom.name)
        return ('special', rng.choice(names))
    return rng.choice(READS[kind] + ('binop', 'method', 'test') * (2 * (kind == 'set')) + ('getitem', 'bisect_left', 'islice', 'index') * (kind != 'dict') +
                      ('peekitem', 'view', 'index') * (kind == 'dict'))


def pick_op(rng, kind, dom, c, ref, name=None):
    name = name or pick_name(rng, kind, dom)
    return name if type(name) is tuple else ops.gen(rng, kind, dom, c, ref, name)


def agree(a, b, op):
    if a[0] != b[0]:
        return False
    if op == ('special', 'pickle'):
        return a[0] != 'ok' or (a[1][1] == b[1][1] and len(a[1][2]) == len(b[1][2]))
    return a == b if a[0] == 'exc' else ops.same(a[1], b[1])


def other(kind, c, dom):
    """A container to compare with: a copy, unless copying may reorder (sorted sets with equal keys)."""
    return c if kind == 'set' and dom.key is not None and not dom.inject else c.copy()


def audit(ctx, kind, c, dom, before, what):
    now = contents(kind, c)
    ctx.check(identical(kind, before, now), f'{what}: the contents changed: before / after', before, now)
    sane(ctx, kind, c, dom, what)
    if 'lt' not in dom.name:
        try:
            c._check()
        except AssertionError:
            ctx.fail(f'{what}: _check() fails')


# -- interruption -------------------------------------------------------------------


def interrupted(ctx, rng, kind, build, dom):
    c = build()
    before = contents(kind, c)
    ref = [p[0] for p in before] if kind == 'dict' else before
    todo = [pick_op(rng, kind, dom, c, ref) for _ in range(rng.choice((1, 1, 2)))]
    with Counting() as k:
        for op in todo:
            perform(kind, c, op)
    total = k.n
    ctx.log('reads', str(todo), f'{total} instructions')
    if not total:
        return
    stops = points(rng, k.seen, rng.choice((4, 10)) if len(before) > 12 else 24)
    ctx.shape('interrupt', kind, dom.name, len(before), [op[0] for op in todo], stops)
    for stop in stops:
        c = build()
        before = contents(kind, c)
        inner = getattr(c, '_list', c)
        unbuilt = not getattr(inner, '_index', True)
        what = f'read {todo} interrupted at instruction {stop} of {total}'
        ctx.log(what)
        try:
            with Counting(stop):
                for op in todo:
                    perform(kind, c, op)
        except Interrupt:
            ctx.n('interrupted')
            WHERE.add(k.seen[stop - 1])
            if unbuilt and getattr(inner, '_index', None):
                ctx.n('inside_index_build')
        if rng.random() < 0.5:
            op = pick_op(rng, kind, dom, c, [p[0] for p in before] if kind == 'dict' else before)
            got = perform(kind, c, op)
            ctx.check(agree(got, perform(kind, other(kind, c, dom), op), op), f'{what}: the next read {op} / the same on a copy', got)
        audit(ctx, kind, c, dom, before, what)


# -- schedules ------------------------------------------------------------------------


class Reader:
    def __init__(self, sched, kind, c, todo, plan):
        self.sched, self.kind, self.c, self.todo, self.plan = sched, kind, c, todo, set(plan)
        self.n, self.results, self.error, self.alive = 0, [], None, True
        self.polite = False  # hands over after each operation
        self.go = threading.Lock()
        self.go.acquire()
        self.thread = threading.Thread(target=self.run, daemon=True)

    def __call__(self, code, offset):
        self.n += 1
        if self.n in self.plan:
            self.sched.switch(self)

    def perform(self, op):
        return perform(self.kind, self.c, op)

    def run(self):
        self.go.acquire()
        try:
            HOOK.local.act = self
            for op in self.todo:
                self.results.append(self.perform(op))
                if self.polite:
                    self.sched.switch(self)
        except BaseException as e:
            self.error = e
        finally:
            HOOK.local.act = None
            self.alive = False
            self.sched.finished(self)


class Schedule:
    """Exactly one reader runs at a time; the plan says when it hands over."""

    def __init__(self):
        self.readers, self.switches = [], 0
        self.over = threading.Lock()
        self.over.acquire()

    def after(self, r):
        i = self.readers.index(r)
        for o in self.readers[i + 1:] + self.readers[:i]:
            if o.alive:
                return o
        return None

    def switch(self, r):
        o = self.after(r)
        if o is not None:
            self.switches += 1
            o.go.release()
            r.go.acquire()

    def finished(self, r):
        o = self.after(r)
        (self.over if o is None else o.go).release()

    def play(self):
        for r in self.readers:
            r.thread.start()
        self.readers[0].go.release()
        self.over.acquire()
        for r in self.readers:
            r.thread.join()


def siblings(ctx, rng, kind, build, dom):
    """Two threads inside the same code with different arguments: the second does a whole operation at each stop of the first."""
    c = build()
    before = contents(kind, c)
    ref = [p[0] for p in before] if kind == 'dict' else before
    alone = other(kind, c, dom)
    shape = []
    for _ in range(6):
        name = pick_name(rng, kind, dom)
        op = pick_op(rng, kind, dom, c, ref, name)
        with Counting() as k:
            mine = perform(kind, alone, op)
        if not k.n:
            continue
        lines = set(k.seen)
        best, score = None, -2
        for _ in range(5):
            o = pick_op(rng, kind, dom, c, ref, name)
            with Counting() as ko:
                got = perform(kind, alone, o)
            near = len(lines & set(ko.seen)) / len(lines | set(ko.seen)) - agree(got, mine, op)
            if near > score:
                best, score, its = o, near, got
        if rng.random() < 0.5:
            ctx.n('rebuilt')
            c = build()
            before = contents(kind, c)
            alone = other(kind, c, dom)
            mine, its = perform(kind, alone, op), perform(kind, alone, best)
        plan = points(rng, k.seen, 16)
        sched = Schedule()
        sched.readers = [Reader(sched, kind, c, [op], plan), Reader(sched, kind, c, [best] * 17, ())]
        sched.readers[1].polite = True
        what = f'{op} with {best} at its instructions {plan}'
        ctx.log(what)
        shape.append((op[0], plan))
        sched.play()
        ctx.n('siblings')
        ctx.n('switches', sched.switches)
        for r, want in zip(sched.readers, (mine, its)):
            if r.error is not None:
                ctx.fail(f'{what}: {r.todo[0]} raised {type(r.error).__name__}: {r.error}')
            for got in r.results:
                ctx.n('results')
                ctx.check(agree(got, want, r.todo[0]), f'{what}: {r.todo[0]} among other readers / alone', got, want)
        if rng.random() < 0.2:
            audit(ctx, kind, c, dom, before, what)
    ctx.shape('siblings', kind, dom.name, len(before), shape)
    audit(ctx, kind, c, dom, before, 'siblings')


def scheduled(ctx, rng, kind, build, dom):
    twin, c = build(), build()
    before = contents(kind, c)
    ref = [p[0] for p in before] if kind == 'dict' else before
    sched = Schedule()
    # most of the time all readers are about to need the positional index at once
    alike = rng.random() < 0.4
    first = None
    for _ in range(rng.choice((2, 2, 2, 3, 4))):
        todo = first if alike and first else [pick_op(rng, kind, dom, c, ref) for _ in range(rng.choice((1, 1, 2, 3)))]
        first = todo
        with Counting() as k:
            for op in todo:
                perform(kind, twin, op)
        if rng.random() < 0.7:
            twin = build()
        plan = points(rng, k.seen, rng.choice((1, 1, 2, 4, 12))) if k.n else ()
        sched.readers.append(Reader(sched, kind, c, todo, plan))
    if other(kind, c, dom) is not c:
        alone = [[perform(kind, c.copy(), op) for op in r.todo] for r in sched.readers]
    for i, r in enumerate(sched.readers):
        ctx.log(f'thread {i}', str(r.todo), 'hands over at', str(sorted(r.plan)))
    ctx.shape('schedule', kind, dom.name, len(before), [([op[0] for op in r.todo], sorted(r.plan)) for r in sched.readers])
    sched.play()
    ctx.n('schedules')
    ctx.n('switches', sched.switches)
    ctx.n('threads', len(sched.readers))
    if other(kind, c, dom) is c:
        alone = [[perform(kind, c, op) for op in r.todo] for r in sched.readers]
    what = f'{len(sched.readers)} readers, {sched.switches} switches'
    for i, (r, want) in enumerate(zip(sched.readers, alone)):
        if r.error is not None:
            ctx.fail(f'{what}: thread {i} raised {type(r.error).__name__}: {r.error}')
        for op, a, b in zip(r.todo, r.results, want):
            ctx.n('results')
            ctx.check(agree(a, b, op), f'{what}: thread {i}: {op} among other readers / alone', a, b)
    audit(ctx, kind, c, dom, before, what)


def case(ctx):
    rng = ctx.rng
    kind, cls, dom = pick_world(rng)
    prof = work.profile(rng, only=('tiny', 'small', 'small', 'small', 'medium'))
    n = min(prof.n, 160)
    ctx.n(kind)
    seed = rng.randrange(1 << 60)
    vals = dom.some(rng, n)

    def build():
        return make(random.Random(seed), kind, cls, dom, prof.load, vals)

    ctx.log('world', kind, cls.__name__, repr(dom), f'n={n} load={prof.load}')
    for _ in range(2):
        had = len(WHERE)
        rng.choices((interrupted, scheduled, siblings), (4, 4, 3))[0](ctx, rng, kind, build, dom)
        ctx.n('distinct_points_per_worker', len(WHERE) - had)
