"""C23: the text form against one rendered by the monitor, for flat and for self-containing containers."""

import threading

from .. import work
from ..anyobj import SubKeyList, SubList, change, contents, identical, make, pick_world
from ..values import Dom
from ..target import SmallKeyList, SmallList, SortedDict, SortedKeyList, SortedList, SortedSet, SubDict, SubSet

ID = 'C23'
LEVEL = 'exploration'
TECHNIQUE = ('random histories and random graphs of containers that contain each other and themselves; repr compared '
             'with a rendering by the monitor, again after raising elements and from other threads')
QUICK_CASES = 18000
RULE = ('a case either drives one container through a history and compares repr, str, format and the repr of its views '
        'with text the monitor puts together from the contents, or builds a graph of sorted containers, dicts, lists '
        'and objects referring to each other in cycles and compares every repr with a depth-first rendering that '
        'shows an occurrence inside itself as "..."; element reprs that raise or that print the container from '
        'another thread are included; distinct by shape, classes, domain, size, load')
ASSUMPTIONS = ['element reprs are deterministic']
REQUIRED = ['oracle_checks', 'odd_texts', 'flat', 'graph', 'cycles', 'raised', 'threads', 'with_key', 'views', 'list', 'keylist', 'set',
            'dict', 'g_list', 'g_keylist', 'g_set', 'g_dict', 'shared_not_cyclic']


TEXTS = ('{}', '{0!r}', '%s', '%(x)d', '\n', "'", '"', '\\', '', 'é', '...', '{', '}', ', ', 'key=', 'SortedList([])', '\x00', ' ')


class OddText:
    """Its repr is easily mistaken for something else; str and format differ from it."""

    def __init__(self, rank):
        self.rank = rank

    def __lt__(self, o):
        return self.rank < o.rank

    def __eq__(self, o):
        return isinstance(o, OddText) and self.rank == o.rank

    def __hash__(self):
        return hash(self.rank)

    def __repr__(self):
        return TEXTS[self.rank % len(TEXTS)]

    def __str__(self):
        return f'str of {self.rank}'

    def __format__(self, spec):
        return f'format of {self.rank}'


class OddKey(OddText):
    """A key function of the same kind."""

    def __call__(self, v):
        return v.rank


ODD_KEY = OddKey(1)


def flat_text(kind, c, dom_key):
    """The text of a container none of whose elements contains it."""
    name = type(c).__name__
    if kind == 'dict':
        inner = '{' + ', '.join(f'{k!r}: {dict.__getitem__(c, k)!r}' for k in list(c)) + '}'
        return f'{name}({inner})' if dom_key is None else f'{name}({dom_key!r}, {inner})'
    inner = '[' + ', '.join(repr(v) for v in list(c)) + ']'
    return f'{name}({inner})' if dom_key is None else f'{name}({inner}, key={dom_key!r})'


def flat(ctx):
    rng = ctx.rng
    kind, cls, dom = pick_world(rng)
    prof = work.profile(rng, 0.4, ('tiny', 'tiny', 'small', 'small', 'medium'), rare=0.006)
    ctx.n(kind)
    ctx.n('flat')
    if dom.key is not None:
        ctx.n('with_key')
    odd = rng.random() < 0.3
    if odd:
        ctx.n('odd_texts')
        dom = Dom('odd', lambda r: OddText(r.randrange(40)), key=rng.choice((ODD_KEY, by_rank)) if dom.key is not None else None,
                  inject=True)
    c = make(rng, kind, cls, dom, prof.load, dom.some(rng, prof.n))
    ctx.log('world', kind, cls.__name__, repr(dom), f'n={len(c)}')
    ctx.shape('flat', kind, cls.__name__, dom.name, prof.n, prof.load)
    view = getattr(c, rng.choice(('keys', 'values', 'items')))() if kind == 'dict' else None
    for _ in range(min(prof.ops, 12)):
        was = contents(kind, c)
        want = flat_text(kind, c, dom.key)
        ctx.eq(repr(c), want, 'repr')
        ctx.eq(str(c), want, 'str')
        if rng.random() < 0.2:
            ctx.eq(format(c), want, 'format')
            ctx.eq(repr([c, c]), f'[{want}, {want}]', 'repr inside a list')
        if kind == 'dict':
            ctx.n('views')
            ctx.eq(repr(view), f'{type(view).__name__}({want})', 'repr of a view')
        ctx.check(identical(kind, was, contents(kind, c)), 'repr changed the contents')
        change(rng, kind, c, dom)
        if kind == 'dict' and len(c) and rng.random() < 0.5:
            c[c.keys()[rng.randrange(len(c))]] = rng.choice((OddText(rng.randrange(40)), 'text', '{!r}', "it's", None, [c.key], {}))


# -- graphs -----------------------------------------------------------------------


class Node:
    """A hashable, orderable element whose text shows what it refers to."""

    def __init__(self, rank):
        self.rank = rank
        self.ref = None
        self.mood = None

    def __lt__(self, o):
        return self.rank < o.rank

    def __eq__(self, o):
        return isinstance(o, Node) and self.rank == o.rank

    def __hash__(self):
        return hash(self.rank)

    def __repr__(self):
        if self.mood is not None:
            self.mood(self)
        return f'Node{self.rank}<{self.ref!r}>'


def node_key(v):
    return -v.rank if isinstance(v, Node) else id(v)


class Boom(Exception):
    pass


def by_rank(n):
    return -n.rank


class TooLong(Exception):
    pass


def render(x, stack, budget):
    """The text x must have, depth first; an occurrence inside itself is elided."""
    budget[0] -= 1
    if budget[0] < 0:
        raise TooLong
    t = type(x)
    if t is Node:
        return f'Node{x.rank}<{render(x.ref, stack, budget)}>'
    if t in VIEWS:
        return f'{t.__name__}({render(OWNER[id(x)][1], stack, budget)})'
    if not isinstance(x, (SortedList, SortedSet, dict, list)):
        return repr(x)
    if id(x) in stack:
        budget[1] += 1
        return '[...]' if t is list else '{...}' if t is dict else '...'
    stack = stack | {id(x)}
    if isinstance(x, dict):
        inner = '{' + ', '.join(f'{render(k, stack, budget)}: {render(dict.__getitem__(x, k), stack, budget)}'
                                for k in list(x)) + '}'
        if t is dict:
            return inner
        return f'{t.__name__}({inner})' if x.key is None else f'{t.__name__}({x.key!r}, {inner})'
    inner = '[' + ', '.join(render(v, stack, budget) for v in list(x)) + ']'
    if t is list:
        return inner
    key = getattr(x, 'key', None)
    return f'{t.__name__}({inner})' if key is None else f'{t.__name__}({inner}, key={key!r})'


VIEWS = ()
OWNER = {}  # id of a view -> (the view, its dict)


def graph(ctx):
    rng = ctx.rng
    ctx.n('graph')
    m = rng.randrange(1, 6)
    OWNER.clear()
    pool, kinds = [], []
    for _ in range(m):
        k = rng.choice(('list', 'keylist', 'set', 'dict', 'dict', 'plainlist', 'plaindict', 'anykeylist'))
        kinds.append(k)
        key = rng.choice((None, by_rank))
        if k == 'list':
            c = rng.choice((SortedList, SmallList, SubList))()
        elif k == 'keylist':
            c = rng.choice((SortedKeyList, SmallKeyList, SubKeyList))(key=by_rank)
        elif k == 'anykeylist':
            c = SortedKeyList(key=id)
        elif k == 'set':
            c = rng.choice((SortedSet, SubSet))(key=key)
        elif k == 'dict':
            c = rng.choice((SortedDict, SubDict))(*(() if key is None else (key,)))
        else:
            c = [] if k == 'plainlist' else {}
        if k not in ('plainlist', 'plaindict') and rng.random() < 0.5:
            c._reset(4)
        pool.append(c)
        ctx.n('g_' + ('keylist' if k == 'anykeylist' else k))
    nodes = []
    rank = iter(range(1000))

    def target():
        x = rng.choice(pool)
        if isinstance(x, SortedDict) and rng.random() < 0.25:
            view = getattr(x, rng.choice(('keys', 'values', 'items')))()
            OWNER[id(view)] = (view, x)
            return view
        return x

    def node():
        n = Node(next(rank))
        n.ref = target() if rng.random() < 0.6 else rng.choice((None, 7, 'x', ()))
        nodes.append(n)
        return n

    for c, k in zip(pool, kinds):
        for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 6))):
            if k in ('list', 'keylist', 'set'):
                c.add(node())
            elif k in ('dict', 'plaindict'):
                c[node()] = target() if rng.random() < 0.5 else rng.choice((None, 5, ()))
            elif k == 'plainlist':
                c.append(target() if rng.random() < 0.6 else node())
            else:
                x = target() if rng.random() < 0.6 else node()
                c.add(x)
    ctx.shape('graph', tuple(kinds), tuple(len(c) for c in pool), tuple(type(n.ref).__name__ for n in nodes))
    ctx.log('graph', repr(kinds), repr([len(c) for c in pool]), repr([(n.rank, type(n.ref).__name__) for n in nodes]))

    def expect(c):
        budget = [1500, 0]
        text = render(c, frozenset(), budget)
        ctx.n('cycles' if budget[1] else 'shared_not_cyclic')
        return text

    order = list(pool) + [target() for _ in range(2)]
    rng.shuffle(order)
    wants = []
    for c in order:
        try:
            want = expect(c)
        except TooLong:
            continue
        wants.append((c, want))
        ctx.eq(repr(c), want, f'repr of a {type(c).__name__} in a graph of containers')
        if rng.random() < 0.3:
            ctx.eq(f'{c}', want, 'format')
    if not wants or not nodes:
        return
    # an element whose repr raises: the exception comes through, and nothing stays marked as "being printed"
    bad = rng.choice(nodes)

    def boom(_n):
        raise Boom

    bad.mood = boom
    for c, want in wants:
        tag, v = work.outcome_of(lambda: repr(c))
        if f'Node{bad.rank}<' in want:
            ctx.n('raised')
            ctx.check(tag == 'exc' and type(v) is Boom, 'the exception of an element is lost', v)
        else:
            ctx.eq(v, want, 'repr')
    bad.mood = None
    for c, want in wants:
        ctx.eq(repr(c), want, 'repr after an element had raised')
    # an element that has the container printed in another thread meanwhile
    if rng.random() < 0.3:
        c, want = rng.choice(wants)
        inside = [n for n in nodes if f'Node{n.rank}<' in want]
        if inside:
            n = rng.choice(inside)
            got = []

            def elsewhere(node_):
                node_.mood = None
                t = threading.Thread(target=lambda: got.append(work.outcome_of(lambda: repr(c))))
                t.start()
                t.join()

            n.mood = elsewhere
            here = repr(c)
            n.mood = None
            ctx.n('threads')
            ctx.eq(here, want, 'repr while another thread prints the same container')
            ctx.check(len(got) == 1 and got[0] == ('ok', want), 'repr in another thread during a repr', got, want)


def case(ctx):
    global VIEWS
    if not VIEWS:
        d = SortedDict()
        VIEWS = (type(d.keys()), type(d.values()), type(d.items()))
    if ctx.rng.random() < 0.5:
        flat(ctx)
    else:
        graph(ctx)
