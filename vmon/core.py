"""Monitor core: what a case records, how it reports, how it is guarded."""

import os
import random
import reprlib
import signal
import sys
from collections import Counter

_r = reprlib.Repr()
_r.maxlist = _r.maxtuple = _r.maxdict = _r.maxset = _r.maxfrozenset = _r.maxdeque = 40
_r.maxstring = _r.maxother = 300
_r.maxlevel = 4


def short(x):
    try:
        if isinstance(x, (list, tuple, dict, set, frozenset, str, int, float, type(None))):
            return _r.repr(x)
        s = repr(x)
        return s if len(s) < 600 else s[:590] + '...'
    except Exception as e:  # a broken repr must not hide the violation
        return f'<{type(x).__name__} (repr failed: {type(e).__name__})>'


class Violation(Exception):
    """The oracle saw the property broken."""


class Inconclusive(Exception):
    """The case could not be decided."""


class CaseTimeout(BaseException):
    """The watchdog fired (CPU time; never a verdict by itself)."""


class StepLimit(BaseException):
    """One operation ran far more interpreter steps than any that terminates."""


class Ctx:
    """One case: its randomness, counters, trace and verdict helpers."""

    def __init__(self, prop, seed, case, tier):
        self.prop = prop
        self.seed = seed
        self.case = case
        self.tier = tier
        self.rng = random.Random(f'{seed}:{prop}:{case}')
        self.counts = Counter()
        self.trace = []
        self.sig = []
        self.keep_trace = True
        self.nontrivial = False
        self.events = 0
        self.stepping = False  # under the step counter, whose own bookkeeping takes memory

    # -- recording

    def n(self, name, k=1):
        self.counts[name] += k

    def log(self, *what):
        self.events += 1
        if self.keep_trace:
            self.trace.append(what)

    def shape(self, *what):
        """Part of the signature that tells cases apart."""
        self.sig.append(what)

    def format_trace(self, last=60):
        out = []
        items = self.trace[-last:]
        if len(self.trace) > last:
            out.append(f'... {len(self.trace) - last} earlier events')
        for w in items:
            out.append(' '.join(x if isinstance(x, str) else short(x) for x in w))
        return out

    # -- deciding

    def fail(self, message, *values):
        raise Violation(message + ''.join('\n    ' + short(v) for v in values))

    def check(self, cond, message, *values):
        self.counts['oracle_checks'] += 1
        if not cond:
            self.fail(message, *values)

    def eq(self, got, want, message):
        self.counts['oracle_checks'] += 1
        if not (got == want):
            self.fail(f'{message}: got / expected', got, want)

    def same_seq(self, got, want, message):
        """Same objects in the same order."""
        self.counts['oracle_checks'] += 1
        if len(got) == len(want):
            for a, b in zip(got, want):
                if a is not b:
                    break
            else:
                return
        i = 0
        for a, b in zip(got, want):
            if a is not b:
                break
            i += 1
        self.fail(f'{message}: lengths {len(got)} / {len(want)} expected, first difference at {i}: '
                  f'got / expected (from there)', list(got[max(0, i - 2):i + 8]), list(want[max(0, i - 2):i + 8]))


def outcome(f, *args, **kw):
    """('ok', value) or ('exc', exception)."""
    try:
        return 'ok', f(*args, **kw)
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        return 'exc', e


# -- watchdog -----------------------------------------------------------------


class Watchdog:
    """CPU-time limit on a case; its firing is not a verdict."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def fire(_sig, _frm):
            raise CaseTimeout

        self.old = signal.signal(signal.SIGVTALRM, fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 1.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


# -- what code of the repository the workload reached -------------------------


class LineCoverage:
    """Lines of the package executed, at next to no cost (each reported once)."""

    TOOL = 4

    def __init__(self, pkg_dir):
        self.pkg = pkg_dir + os.sep
        self.lines = set()
        self.on = False
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, 'vmon-coverage')
        except ValueError:
            return
        self.on = True
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, line):
        f = code.co_filename
        if f.startswith(self.pkg):
            self.lines.add((f[len(self.pkg):], line))
        return sys.monitoring.DISABLE

    @staticmethod
    def total(pkg_dir):
        """All lines inside functions of the package (what could be reached)."""
        import types

        out = set()

        def walk(code, name, infn):
            if infn:
                out.update((name, ln) for _, _, ln in code.co_lines() if ln and ln != code.co_firstlineno)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c, name, infn or bool(c.co_flags & 0x2 and c.co_flags & 0x1))

        for n in sorted(os.listdir(pkg_dir)):
            if n.endswith('.py'):
                with open(os.path.join(pkg_dir, n)) as f:
                    walk(compile(f.read(), n, 'exec'), n, False)
        return out


class StepCounter:
    """Counts interpreter LINE/JUMP events; raises StepLimit when `limit` of
    them pass without the case making progress (an oracle check or an event)."""

    TOOL = 3

    def __init__(self, ctx, limit):
        self.ctx = ctx
        self.limit = limit
        self.n = 0
        self.seen = None

    def _cb(self, code, *_):
        self.n += 1
        if self.n & 1023:
            return
        now = self.ctx.events + self.ctx.counts['oracle_checks']
        if now != self.seen:
            self.seen = now
            self.n = 0
        elif self.n > self.limit:
            # once: whatever handles the limit must not meet it again
            sys.monitoring.set_events(self.TOOL, 0)
            raise StepLimit

    def __enter__(self):
        self.ctx.stepping = True
        mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(self.TOOL, 'vmon-steps')
        mon.register_callback(self.TOOL, ev.LINE, self._cb)
        mon.register_callback(self.TOOL, ev.JUMP, self._cb)
        mon.set_events(self.TOOL, ev.LINE | ev.JUMP)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.free_tool_id(self.TOOL)
        return False
