"""Runs one property's cases over worker processes and gives the verdict.

    runner.py CID            VERIF_TIER / VERIF_SEED from the environment
    runner.py CID --replay F run the one case a replay file names
"""

import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

from vmon import core  # noqa: E402

WORKERS = 8
CASE_CPU_S = 30
STEP_LIMIT = 40_000_000
QUICK_CAP_S = float(os.environ.get('VERIF_QUICK_CAP_S', 150))
THOROUGH_S = float(os.environ.get('VERIF_THOROUGH_S', 420))
HARD_S = 820


def load(prop):
    return importlib.import_module(f'vmon.checks.{prop.lower()}')


def hash_seed(seed, w):
    h = hashlib.sha256(f'{seed}:{w}'.encode()).digest()
    return str(int.from_bytes(h[:4], 'big'))


def one_case(mod, prop, seed, case, tier, steps=None):
    """Run a case; None if it held, else (kind, message, ctx)."""
    ctx = core.Ctx(prop, seed, case, tier)
    try:
        with core.Watchdog(CASE_CPU_S if steps is None else 6 * CASE_CPU_S):
            if steps is None:
                mod.case(ctx)
            else:
                with core.StepCounter(ctx, steps):
                    mod.case(ctx)
    except core.Violation as e:
        return 'violation', str(e), ctx
    except core.Inconclusive as e:
        return 'inconclusive', str(e), ctx
    except core.CaseTimeout:
        return 'timeout', f'the case used up its CPU time at {ctx.format_trace(last=3)}', ctx
    except core.StepLimit:
        tb = traceback.format_exc(limit=-6)
        return 'violation', f'an operation did not finish within {steps} interpreter steps\n{tb}', ctx
    except MemoryError:
        return 'memory', 'an operation ran out of the memory limit', ctx
    except Exception as e:
        tb = traceback.format_exc(limit=-8)
        return 'violation', f'unexpected {type(e).__name__}: {e}\n{tb}', ctx
    return None, '', ctx


def decide(mod, prop, seed, case, tier):
    kind, msg, ctx = one_case(mod, prop, seed, case, tier)
    if kind == 'timeout':
        kind, msg, ctx = one_case(mod, prop, seed, case, tier, steps=STEP_LIMIT)
        if kind == 'timeout':
            # every operation finished, there were just many: what was seen held
            ctx.n('cases_cut_short')
            kind, msg = None, ''
    if kind == 'memory':
        kind, msg, ctx = one_case(mod, prop, seed, case, tier)
        if kind in ('memory', 'timeout'):
            kind, msg = 'violation', 'an operation on small data ran away (memory limit reached twice)'
    return kind, msg, ctx


# -- worker --------------------------------------------------------------------


def worker(prop, w, out):
    tier, seed, limit, budget = (
        os.environ['VERIF_TIER'], int(os.environ['VERIF_SEED']),
        int(os.environ['VMON_CASES']), float(os.environ['VMON_BUDGET']))
    mod = load(prop)
    from vmon import target

    if not getattr(mod, 'NO_RLIMIT', False):
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    cov = core.LineCoverage(target.PKG_DIR) if getattr(mod, 'COVERAGE', True) else None
    t0 = time.monotonic()
    res = {'cases': 0, 'nontrivial': 0, 'counts': {}, 'sigs': [], 'violations': [], 'inconclusive': [],
           'samples': [], 'lines': [], 'slowest': (0, -1), 'done': False}
    total = core.Counter()
    sigs = set()
    i = w
    if hasattr(mod, 'setup'):
        mod.setup(w)
    while i < limit and time.monotonic() - t0 < budget:
        t1 = time.process_time()
        kind, msg, ctx = decide(mod, prop, seed, i, tier)
        res['slowest'] = max(res['slowest'], (round(time.process_time() - t1, 3), i))
        res['cases'] += 1
        total.update(ctx.counts)
        if kind == 'violation':
            res['violations'].append({'case': i, 'message': msg, 'trace': ctx.format_trace()})
            break
        if kind == 'inconclusive':
            res['inconclusive'].append({'case': i, 'message': msg})
        else:
            if ctx.nontrivial or ctx.counts['oracle_checks'] > 0:
                res['nontrivial'] += 1
                sigs.add(hashlib.sha1(repr(ctx.sig).encode()).hexdigest()[:16])
            if len(res['samples']) < 1 and ctx.trace:
                res['samples'].append({'case': i, 'trace': ctx.format_trace(last=12)})
        i += WORKERS
    res['counts'] = dict(total)
    res['sigs'] = sorted(sigs)
    if cov is not None:
        res['lines'] = sorted(cov.lines)
    res['done'] = True
    with open(out, 'w') as f:
        json.dump(res, f)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if os.environ.get('PYTHONHASHSEED') != d['hashseed']:
        env = dict(os.environ, PYTHONHASHSEED=d['hashseed'])
        os.execve(sys.executable, [sys.executable, '-B', os.path.abspath(__file__), d['property'], '--replay', path], env)
    mod = load(d['property'])
    if hasattr(mod, 'setup'):
        mod.setup(d['case'] % WORKERS)
    kind, msg, ctx = decide(mod, d['property'], d['seed'], d['case'], d['tier'])
    print('\n'.join(ctx.format_trace(last=200)))
    if kind == 'violation':
        print(msg)
        print(f'VIOLATION property={d["property"]} replay={path}')
        return 1
    print('no violation in this case' if kind is None else f'{kind}: {msg}')
    return 0 if kind is None else 2


# -- parent --------------------------------------------------------------------


def run(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    mod = load(prop)
    cases = mod.QUICK_CASES if tier == 'quick' else 10**9
    budget = QUICK_CAP_S if tier == 'quick' else THOROUGH_S
    tmp = tempfile.mkdtemp(prefix='vmon-')
    procs = []
    results = []
    died = []
    try:
        for w in range(WORKERS):
            env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONHASHSEED=hash_seed(seed, w),
                       VMON_CASES=str(cases), VMON_BUDGET=str(budget), PYTHONDONTWRITEBYTECODE='1')
            for k in ('PYTHONPATH', 'PYTHONOPTIMIZE', 'PYTHONSTARTUP'):
                env.pop(k, None)
            out = os.path.join(tmp, f'{w}.json')
            err = open(os.path.join(tmp, f'{w}.err'), 'wb')
            p = subprocess.Popen(
                [sys.executable, '-B', os.path.abspath(__file__), prop, '--worker', str(w), out],
                env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, cwd=tmp, start_new_session=True)
            err.close()
            procs.append((w, p, out))
        for w, p, out in procs:
            left = max(1.0, HARD_S - (time.monotonic() - t0))
            try:
                p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                pass
        for w, p, out in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                died.append((w, 'killed at the hard time limit'))
            elif os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                r['w'] = w
                results.append(r)
            else:
                with open(os.path.join(tmp, f'{w}.err'), errors='replace') as f:
                    died.append((w, f'exit {p.returncode}: {f.read()[-2000:]}'))
    finally:
        for _, p, _ in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)

    counts = core.Counter()
    sigs, lines, viol, inc, samples = set(), set(), [], [], []
    ncases = nontrivial = 0
    for r in results:
        counts.update(r['counts'])
        sigs.update(r['sigs'])
        lines.update(map(tuple, r['lines']))
        viol += [dict(v, w=r['w']) for v in r['violations']]
        inc += r['inconclusive']
        samples += r['samples']
        ncases += r['cases']
        nontrivial += r['nontrivial']
    slowest = max([tuple(r['slowest']) for r in results] or [(0, -1)])
    missing = [k for k in mod.REQUIRED if not counts.get(k)]

    wall = time.monotonic() - t0
    cover = {
        'evaluations': ncases,
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': samples[:2] + [v['message'][:2000] for v in viol[:1]] or ['no case finished'],
        'observed': {k: counts[k] for k in sorted(counts)},
        'workers': len(results),
        'nontrivial_cases': nontrivial,
        'inconclusive_cases': len(inc),
        'slowest_case': dict(zip(('cpu_s', 'case'), slowest)),
    }
    if lines:
        from vmon import target

        tot = core.LineCoverage.total(target.PKG_DIR)
        hit = lines & tot
        by = {}
        for f, ln in tot:
            a = by.setdefault(f, [0, 0])
            a[1] += 1
            a[0] += (f, ln) in hit
        cover['package_lines_reached'] = {f: f'{a}/{b}' for f, (a, b) in sorted(by.items())}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cover,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 3), 'violations': len(viol)}
    path = os.path.join(ROOT, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)

    head = (f'{prop} {tier} seed={seed}: {ncases} cases, {len(sigs)} distinct, '
            f'{counts["oracle_checks"]} oracle checks, {wall:.1f}s, slowest case {slowest[0]:.1f}s')
    print(head)
    if viol:
        v = min(viol, key=lambda v: v['case'])
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f'{prop}-{tier}-{seed}-{v["case"]}.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'case': v['case'], 'tier': tier,
                       'hashseed': hash_seed(seed, v['w']), 'message': v['message'], 'trace': v['trace']}, f, indent=1)
        print('\n'.join(v['trace'][-12:]))
        print(v['message'])
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if died or inc or missing or not sigs:
        for w, m in died:
            print(f'worker {w}: {m}')
        for x in inc[:3]:
            print(f'inconclusive case {x["case"]}: {x["message"]}')
        if missing:
            print(f'inconclusive: the monitors never observed {missing}')
        print(f'INCONCLUSIVE property={prop}')
        return 2
    for line in known_findings(prop):
        print(line)
    return 0


def known_findings(prop):
    """Unrepaired findings listed for this property (there are none today)."""
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith(f'finding: property={prop} '):
                    yield 'KNOWN-FINDING: ' + line[len('finding: '):].strip()


def main(argv):
    prop = argv[0].upper()
    if '--worker' in argv:
        i = argv.index('--worker')
        worker(prop, int(argv[i + 1]), argv[i + 2])
        return 0
    if '--replay' in argv:
        return replay(argv[argv.index('--replay') + 1])
    return run(prop)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
