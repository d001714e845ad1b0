"""
Exhaustive explorer.

A check enumerates a finite space of cases (small worlds x parameters x
operation histories x crash points), runs the real code on every one of them
and compares with a reference model.  Cases are executed in forked workers, so
that a case which kills the process is itself observed (and reported).
"""
import argparse
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
MAX_VIOLATIONS = 12
CASE_TIMEOUT = 400


class Violation(Exception):
    """The property does not hold for this case"""


class Check:
    """Base class of checks, one per property"""

    pid = None
    level = 'model_checking'
    technique = ('bounded exhaustive model checking: every case of a finite space is run on the real code '
                 'and compared with a reference model')
    kernels = True
    kernel_flags = None
    bounds = ''
    assumptions = []
    budget = {'quick': 540, 'thorough': 6 * 3600}
    case_timeout = {'quick': CASE_TIMEOUT, 'thorough': CASE_TIMEOUT}

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.calls = 0       # runs of the real code (transitions)
        self.compared = 0    # real executions compared with the model
        self.outcomes = set()

    def setup(self):
        """Called once in the parent, after the code under test was bound"""

    def cases(self):
        raise NotImplementedError

    def run(self, case):
        """Run one case; raise Violation if the property fails"""
        raise NotImplementedError

    def classify(self, case, message):
        """Stable identification of a violation, matched against known findings"""
        return message

    # Helpers for subclasses
    def outcome(self, *what):
        """Record a digest of what was observed (to see that cases really differ)"""
        self.outcomes.add(hashlib.md5(repr(what).encode()).digest()[:8])

    def extra_coverage(self):
        return {}


def product(**axes):
    """All combinations of the axes, as dictionaries; the first value of each axis comes first"""
    keys = list(axes)
    for values in itertools.product(*[axes[k] for k in keys]):
        yield dict(zip(keys, values))


def deviations(axes, bound):
    """
    All combinations in which at most `bound` axes deviate from their default
    (the first value of the axis), fewest deviations first.
    """
    keys = list(axes)
    default = {k: axes[k][0] for k in keys}
    for n in range(bound + 1):
        for which in itertools.combinations(keys, n):
            for values in itertools.product(*[axes[k][1:] for k in which]):
                case = dict(default)
                case.update(zip(which, values))
                yield case


def _load(pid):
    module = importlib.import_module('checks.' + pid.lower())
    return module.Check


def _timeout(signum, frame):
    raise TimeoutError('case did not terminate in time')


def _describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb][-3:]
    return 'unexpected %s: %s [%s]' % (type(exc).__name__, exc, ' > '.join(where))


def run_case(check, case):
    """Return None or the message of the violation"""
    signal.signal(signal.SIGALRM, _timeout)
    signal.alarm(check.case_timeout[check.tier])
    try:
        check.run(case)
        return None
    except KeyboardInterrupt:
        raise
    except MemoryError as exc:
        return _describe(exc)
    except (Exception, SystemExit) as exc:
        return _describe(exc)
    finally:
        signal.alarm(0)


def _worker(check, cases, counter, lock, current, slot, stop, out, deadline):
    warnings.filterwarnings('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    done, found, capped = 0, [], False
    chunk = max(1, min(16, len(cases) // 64))
    while not stop.value:
        if time.time() > deadline:
            capped = True
            break
        with lock:
            start = counter.value
            counter.value = start + chunk
        if start >= len(cases):
            break
        for idx in range(start, min(start + chunk, len(cases))):
            current[slot] = idx
            message = run_case(check, cases[idx])
            done += 1
            if message is not None:
                found.append((idx, message))
                with open(out + '.found', 'a') as fh:  # survives the death of this worker
                    fh.write(json.dumps([idx, message]) + '\n')
                if len(found) >= MAX_VIOLATIONS:
                    stop.value = 1
                    break
        current[slot] = -1
    with open(out, 'w') as fh:
        json.dump({'done': done, 'calls': check.calls, 'compared': check.compared,
                   'capped': capped, 'outcomes': [o.hex() for o in check.outcomes],
                   'extra': check.extra_coverage()}, fh)
    sys.stdout.flush()
    os._exit(0)


def explore(check, cases, jobs, scratch, deadline):
    """Run all cases in forked workers. Return (summary, violations)"""
    ctx = multiprocessing.get_context('fork')
    counter = ctx.Value('l', 0, lock=False)
    lock = ctx.Lock()
    stop = ctx.Value('i', 0, lock=False)
    current = ctx.Array('l', [-1] * (jobs * 64), lock=False)
    pids, outs, found, slot = {}, [], [], 0

    def spawn():
        nonlocal slot
        out = os.path.join(scratch, 'worker%d.json' % slot)
        mine = slot
        slot += 1
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _worker(check, cases, counter, lock, current, mine, stop, out, deadline)
            except BaseException:
                traceback.print_exc()
                os._exit(97)
        pids[pid] = (mine, out)
        outs.append(out)

    for _ in range(min(jobs, max(1, len(cases)))):
        spawn()
    deaths = 0
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        mine, out = pids.pop(pid)
        if status != 0:
            idx = current[mine]
            if idx < 0:
                raise RuntimeError('worker died outside a case (status %d)' % status)
            if os.WIFSIGNALED(status):
                how = 'signal %d' % os.WTERMSIG(status)
            else:
                how = 'exit status %d' % os.WEXITSTATUS(status)
            found.append((idx, 'the process running the library died (%s)' % how))
            deaths += 1
            if deaths < MAX_VIOLATIONS and slot < len(current) and not stop.value:
                spawn()
            else:
                stop.value = 1
    total = {'done': 0, 'calls': 0, 'compared': 0, 'capped': bool(stop.value), 'outcomes': set(), 'extra': {}}
    for out in outs:
        if os.path.exists(out + '.found'):
            with open(out + '.found') as fh:
                found += [tuple(json.loads(line)) for line in fh]
        if not os.path.exists(out):
            continue
        with open(out) as fh:
            data = json.load(fh)
        for key in ('done', 'calls', 'compared'):
            total[key] += data[key]
        total['capped'] = total['capped'] or data['capped']
        total['outcomes'].update(data['outcomes'])
        for key, value in data['extra'].items():
            total['extra'][key] = total['extra'].get(key, 0) + value
    total['done'] += deaths
    return total, sorted(found)


def known_findings(pid):
    entries = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                entry = json.loads(line)
                if entry.get('property') == pid:
                    entries.append(entry)
    return entries


def _matches(entry, case, message):
    """A known finding is identified by the exact values of some keys of the case and a piece of the message"""
    for key, value in entry.get('case', {}).items():
        if case.get(key) != value:
            return False
    return entry.get('message', '') in message


def main(argv):
    parser = argparse.ArgumentParser(description=__doc__)
    parser.add_argument('pid')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--replay')
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--limit', type=int, default=0, help='debugging: only run the first N cases')
    args = parser.parse_args(argv)
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t_start = time.time()

    from . import env
    cls = _load(args.pid)
    try:
        how = env.setup(kernels=cls.kernels, flags=cls.kernel_flags)
    except Exception as exc:  # the code under test does not even import
        if not isinstance(exc, (env.BuildError, ImportError, SyntaxError, AttributeError, NameError, TypeError)):
            raise
        path = _save(args.pid, {}, 'the package cannot be built and imported: %r' % exc)
        print('the package cannot be built and imported: %r' % exc)
        print('VIOLATION property=%s replay=%s' % (args.pid, path))
        _evidence(cls(tier), tier, seed, [], None, time.time() - t_start, 1, str(exc))
        return 1
    check = cls(tier)
    check.setup()

    if args.replay:
        with open(args.replay) as fh:
            case = json.load(fh)['case']
        warnings.filterwarnings('ignore')
        try:
            check.run(case)
        except Exception as exc:
            traceback.print_exc()
            print('VIOLATION property=%s replay=%s' % (args.pid, args.replay))
            print('  ' + _describe(exc))
            return 1
        print('replay: the property holds for this case')
        return 0

    cases = list(check.cases())
    if args.limit:
        cases = cases[:args.limit]
    for case in cases:
        json.dumps(case)
    scratch = env.scratch_root()
    total, found = explore(check, cases, args.jobs, scratch, t_start + check.budget[tier])

    # Sort out known findings
    entries = known_findings(args.pid)
    seen, fresh = {}, []
    for idx, message in found:
        for i, entry in enumerate(entries):
            if _matches(entry, cases[idx], message):
                seen[i] = seen.get(i, 0) + 1
                break
        else:
            fresh.append((idx, message))
    for i, entry in enumerate(entries):
        print('KNOWN-FINDING: property=%s %s (%d cases in this run)' % (args.pid, entry['what'], seen.get(i, 0)))

    wall = time.time() - t_start
    _evidence(check, tier, seed, cases, total, wall, len(fresh), how)
    print('%s [%s] cases=%d/%d runs=%d compared=%d distinct outcomes=%d%s wall=%.1fs (%s)' %
          (args.pid, tier, total['done'], len(cases), total['calls'], total['compared'], len(total['outcomes']),
           ' CAPPED' if total['capped'] else '', wall, how))
    if fresh:
        for idx, message in fresh[:MAX_VIOLATIONS]:
            path = _save(args.pid, cases[idx], message)
            print('  case %s' % json.dumps(cases[idx], sort_keys=True))
            print('  %s' % message[:600])
            print('VIOLATION property=%s replay=%s' % (args.pid, path))
        return 1
    return 0


def _save(pid, case, message):
    folder = os.path.join(VERIF, 'replays', pid)
    os.makedirs(folder, exist_ok=True)
    text = json.dumps(case, sort_keys=True)
    path = os.path.join(folder, hashlib.md5((text + message).encode()).hexdigest()[:12] + '.json')
    with open(path, 'w') as fh:
        json.dump({'property': pid, 'case': case, 'message': message,
                   'replay': '/opt/venv/bin/python %s/run.py %s --replay %s' % (VERIF, pid, path)}, fh, indent=1)
    return path


def _evidence(check, tier, seed, cases, total, wall, violations, how):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if total is None:
        total = {'done': 0, 'calls': 0, 'compared': 0, 'capped': True, 'outcomes': set(), 'extra': {}}
    n = len(cases)
    samples = [cases[i] for i in sorted({0, n // 3, 2 * n // 3, n - 1})] if n else []
    coverage = {'samples': samples,
                'exhaustive': bool(n) and not total['capped'] and total['done'] == n,
                'bounds': check.bounds,
                'binding': how,
                'distinct_outcomes': len(total['outcomes'])}
    if check.level == 'fault_enumeration':
        coverage.update({'evaluations': total['calls'], 'distinct_nontrivial': len(total['outcomes']),
                         'rule': check.bounds, 'histories': total['done']})
    else:
        coverage.update({'states': total['done'], 'transitions': total['calls'],
                         'traces_validated_against_impl': total['compared']})
    coverage.update(total['extra'])
    data = {'property': check.pid, 'tier': tier, 'seed': seed, 'level': check.level,
            'coverage': coverage, 'assumptions': list(check.assumptions),
            'wall_s': round(wall, 2), 'violations': violations}
    path = os.path.join(VERIF, 'evidence', check.pid + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(data, fh, indent=1)
    os.replace(path + '.tmp', path)
