"""
C17: an interrupted run never leaves an output that update would trust.

Space: for each kind of object and high-level function, starting from no outputs,
complete older outputs or part of them, every point at which do(update=True) can be
stopped: after each executed line of the library, after each (piece of a) write that
reaches the disk, with the default or line buffering, by death of the process, by an
interrupt, or by a disk that fills up.  All states of the folder found this way are
explored as starting points in turn, until no new ones appear.  In every state, the
outputs are absent, the complete old ones, or the complete new ones; from every state,
a run with update that is not interrupted gives a complete set of outputs.
"""
import builtins
import errno
import io
import os
import re
import shutil
import sys
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from checks.c15 import parse
from checks.c16 import ObjectUser, ApiUser, START, TICK, same_table
from mc.worlds import World

NAMES = ['msd', 'vacf', 'chi4', 'chi4opt', 'fskt', 'fkt', 'sk', 'gr', 'ba', 'sk-Filter', 's4kt',
         'msd-partial', 'chi4-partial', 'fkt-partial', 'gr-partial', 'sk-partial']
API = ['msd', 'fkt', 'fskt', 'chi4qs', 'gr', 'sk', 'qt', 'ik']
SIZES = ['empty', 'part', 'full']
DATE = re.compile('^# date:.*$', re.M)
SOURCES = '/atooms/postprocessing/'
CHANGES = ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink', 'os.utime')
DEEP = ['msd', 'chi4', 'fkt', 'msd-partial', 'fkt-partial']
FAULTS_DEEP = ['msd', 'chi4', 'fkt', 'msd-partial']


def normal(text):
    return DATE.sub('# date:', text)


def listing(folder):
    out = {}
    for root, _, files in os.walk(folder):
        for f in files:
            path = os.path.join(root, f)
            with open(path, errors='replace') as fh:
                out[os.path.relpath(path, folder)] = fh.read()
    return out


class Monitor:
    """
    Watches one run: calls event() at each point at which it can be interrupted
    """

    current = None
    hooked = False

    def __init__(self, folder, line_buffering, event):
        self.folder, self.line_buffering, self.event = folder, line_buffering, event
        self.active = False
        self.open = io.open
        self.files = []
        self.steps = 0

    def writing(self):
        """Whether some file is being written"""
        self.files = [x for x in self.files if not x.closed]
        return len(self.files) > 0

    def signature(self):
        """Cheap summary of the folder, to notice changes"""
        out = []
        folders = [self.folder]
        for folder in folders:
            with os.scandir(folder) as it:
                for x in it:
                    if x.is_dir():
                        folders.append(x.path)
                    else:
                        st = x.stat()
                        out.append((x.path, st.st_ino, st.st_size, st.st_mtime_ns))
        return sorted(out)

    def audit(self, name, args):
        """Follow the execution line by line when the folder is about to change"""
        if not self.active or name not in CHANGES:
            return
        path = args[0]
        if isinstance(path, int):
            self.steps = 10**9
            return
        if not os.path.abspath(os.fsdecode(path)).startswith(self.folder):
            return
        if name == 'open':
            if isinstance(args[1], str) and args[1][0] == 'r' and '+' not in args[1]:
                return
            if args[1] is None and args[2] & (os.O_WRONLY | os.O_RDWR) == 0:
                return
            if args[1] is None:
                # File descriptors, we do not know when they are closed
                self.steps = 10**9
        self.follow()

    def follow(self):
        if self.steps <= 0:
            frame = sys._getframe(1)
            while frame is not None:
                if SOURCES in frame.f_code.co_filename:
                    frame.f_trace = self.trace
                frame = frame.f_back
        self.steps = max(self.steps, 6)

    def emit(self, kind):
        if self.active and (self.steps > 0 or self.writing()):
            self.steps -= 1
            self.active = False
            try:
                self.event(kind)
            finally:
                self.active = True

    def trace(self, frame, what, arg):
        if SOURCES not in frame.f_code.co_filename:
            return None
        if self.steps <= 0 and not self.writing():
            return None
        if what in ('line', 'return'):
            self.emit(what)
        return self.trace

    def patched(self, file, mode='r', *args, **kwargs):
        inside = isinstance(file, (str, os.PathLike)) and os.path.abspath(file).startswith(self.folder)
        if not inside or 'b' in mode or '+' in mode or mode[0] not in 'wxa':
            fh = self.open(file, mode, *args, **kwargs)
            if inside and mode[0] in 'wxa':
                self.emit('open')
            return fh
        monitor = self

        class Raw(io.FileIO):
            """Writes reach the disk in pieces"""

            def write(self, data):
                data = bytes(data)
                n = len(data)
                cuts = sorted({n // 2, n}) if n > 1 else [n]
                start = 0
                for cut in cuts:
                    monitor.emit('write')
                    start += super().write(data[start:cut])
                    monitor.emit('written')
                return start

        self.follow()
        self.emit('opening')
        raw = Raw(file, mode.replace('t', ''), opener=kwargs.get('opener'))
        self.files.append(raw)
        self.emit('open')
        return io.TextIOWrapper(io.BufferedWriter(raw), line_buffering=self.line_buffering)

    def __enter__(self):
        Monitor.current = self
        if not Monitor.hooked:
            Monitor.hooked = True
            sys.addaudithook(lambda name, args: Monitor.current is not None and Monitor.current.audit(name, args))
        builtins.open = io.open = self.patched
        self.active = True
        sys.settrace(self.trace)
        return self

    def __exit__(self, *args):
        sys.settrace(None)
        self.active = False
        Monitor.current = None
        builtins.open = io.open = self.open


class Check(Base):

    pid = 'C17'
    level = 'fault_enumeration'
    technique = ('exhaustive fault injection on the real code: all crash points, torn writes, interrupts and full-disk points of a run, '
                 'explored to a fixed point over the states of the output folder; crash states validated by actually killing processes')
    bounds = ('16 kinds of objects and 8 high-level functions x 3 initial states x 2 bufferings x 2 output folders; crashes at each line and each '
              'piece of a write (all states reachable with any number of crashes if there are <=4 files, else with <=2, thorough: 3); interrupts at each line and full disk at each '
              'write from the initial states (thorough: from all states); non-trivial: distinct states of the folder')
    assumptions = ['death of the process, not power failure: what was written before stays on disk', 'renaming a file is atomic',
                   'the outputs written by the interrupted run are newer than the trajectory, the others older']

    def setup(self):
        self.tmp = scratch_root()
        self.ref = {}
        self.counts = {'crash_points': 0, 'faults': 0, 'kills': 0, 'recoveries': 0, 'truncated_explorations': 0}

    def extra_coverage(self):
        return dict(self.counts)

    def cases(self):
        for name in NAMES + API:
            for api in ([False] if name not in API else [True] if name not in NAMES else [False, True]):
                for initial in ('none', 'old', 'some'):
                    for buffering in ('default', 'line'):
                        for nested in (False, True):
                            if nested and (api or initial == 'some' or name not in ('msd', 'fkt', 'chi4', 'gr-partial')):
                                continue
                            if not self.thorough and initial == 'some' and (api or name not in DEEP):
                                continue
                            if not self.thorough and buffering == 'line' and (api or (initial == 'old' and name.endswith('partial'))):
                                continue
                            yield {'name': name, 'api': api, 'initial': initial, 'buffering': buffering, 'nested': nested}

    def world(self, version):
        amp = (0.22, 0.3)
        if self.small:
            # Displacements of the order of the default overlap distance
            amp = (0.06, 0.11)
        return World(layout='AABABBABAB', frames=4, masses='mixed', seed=version % 2, amp=amp[version % 2])

    # Reference outputs

    def complete(self, case, version):
        self.small = case['api'] and case['name'] in ('qt', 'chi4qs')
        key = case['name'], case['api'], case['nested'], version
        if key not in self.ref:
            folder = os.path.join(self.tmp, 'ref-%d' % os.getpid())
            os.makedirs(folder)
            self.start(case, folder, version)()
            self.ref[key] = listing(folder)
            shutil.rmtree(folder)
        return self.ref[key]

    def start(self, case, folder, version):
        """Prepare a run; the function returned does it"""
        user = (ApiUser if case['api'] else ObjectUser)(*((self, case['name'], folder) + (() if case['api'] else (False, ))))
        path = os.path.join(folder, 'traj.xyz')
        user.trajectory(path, version)
        os.utime(path, ns=(START, START))
        if case['api']:
            return lambda: user.function(path, True)
        c = user.new(path, version)
        if case['nested']:
            c.output_path = os.path.join(folder, 'some', 'where', '{symbol}.{tag}.dat')
        return lambda: c.do(update=True)

    # States of the folder

    def classify(self, case, state):
        """Canonical form of a state; complain if an output is not complete"""
        old, new = self.complete(case, 0), self.complete(case, 1)
        form = []
        others = {}
        for f, text in state.items():
            if f == 'traj.xyz':
                continue
            if f not in new:
                # Leftovers: which output they are for, and how much there is
                role = max([x for x in new if os.path.basename(x) in f], key=len, default='')
                size = 'empty' if len(text) == 0 else 'full' if role and self.equal(text, new[role]) else 'part'
                others[role] = max(others.get(role, 0), SIZES.index(size))
                continue
            if self.equal(text, new[f]):
                form.append((f, 'new'))
            elif self.equal(text, old[f]):
                form.append((f, 'old'))
            else:
                raise Violation('%s is neither the old nor the new one: %s' % (f, repr(text[-300:])))
        # Several leftovers of the same kind count as the largest one
        return tuple(sorted(form)), tuple(sorted(others.items()))

    @staticmethod
    def equal(text, reference):
        if normal(text) == normal(reference):
            return True
        try:
            return same_table(text, reference) and len(parse(text)[0]) == len(parse(reference)[0])
        except (Violation, ValueError):
            return False

    def materialize(self, case, state, form, folder):
        if os.path.exists(folder):
            shutil.rmtree(folder)
        os.makedirs(folder)
        old = [f for f, what in form[0] if what == 'old']
        for f, text in state.items():
            path = os.path.join(folder, f)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as fh:
                fh.write(text)
            stamp = START - TICK if f in old else START + TICK
            os.utime(path, ns=(stamp, stamp))

    # Exploration

    def run(self, case):
        base = os.path.join(self.tmp, 'case-%d' % os.getpid())
        os.makedirs(base, exist_ok=True)
        try:
            self.explore(case, base)
        finally:
            shutil.rmtree(base)

    def explore(self, case, base):
        self.small = case['api'] and case['name'] in ('qt', 'chi4qs')
        folder = os.path.join(base, 'work')
        old, new = self.complete(case, 0), self.complete(case, 1)
        outputs = sorted(f for f in new if f != 'traj.xyz')
        if any(self.equal(new[f], old[f]) for f in outputs if not f.endswith('.tau')):
            raise RuntimeError('old and new outputs are not distinguishable')
        initial = {}
        if case['initial'] == 'old':
            initial = {f: old[f] for f in outputs}
        elif case['initial'] == 'some':
            initial = {f: old[f] for f in outputs[::2]}
        queue = [(initial, self.classify(case, initial), 'initial state', 0)]
        # Bound on the number of crashes, if the state space is too large
        bound = 10**9 if len(outputs) <= 4 else 2 if self.thorough else 1
        seen = {queue[0][1]}
        depth0 = True
        while queue:
            state, form, path, depth = queue.pop(0)
            # Recovery without interruptions, observing all the states of the folder on the way
            found, events = self.observe(case, state, form, folder, path)
            self.counts['recoveries'] += 1
            if depth0:
                self.kill(case, state, form, folder, events, path)
            if depth0 or (self.thorough and case['name'] in FAULTS_DEEP):
                found += self.faults(case, state, form, folder, events, path)
            depth0 = False
            for text, canonical, where in found:
                if canonical not in seen:
                    seen.add(canonical)
                    if depth < bound:
                        queue.append((text, canonical, path + ' > ' + where, depth + 1))
                    self.outcome(case['name'], case['api'], canonical)
            if len(seen) > 3000:
                self.counts['truncated_explorations'] += 1
                break

    def guarded(self, case, state, path, where):
        try:
            return self.classify(case, state)
        except Violation as v:
            raise Violation('%s > %s: %s' % (path, where, v.args[0]))

    def observe(self, case, state, form, folder, path):
        self.materialize(case, state, form, folder)
        go = self.start(case, folder, 1)
        events, found = [], {}
        last = [None]
        monitor = Monitor(folder, case['buffering'] == 'line', None)

        def event(kind):
            signature = monitor.signature()
            if signature == last[0]:
                events.append((kind, None, monitor.writing()))
                return
            last[0] = signature
            snapshot = listing(folder)
            where = 'crash at event %d (%s)' % (len(events), kind)
            canonical = self.guarded(case, snapshot, path, where)
            events.append((kind, snapshot, True))
            if canonical not in found:
                found[canonical] = snapshot, canonical, where

        monitor.event = event
        with monitor:
            go()
        self.calls += 1
        self.counts['crash_points'] += len(events)
        # Now everything must be there
        final = listing(folder)
        self.guarded(case, final, path, 'end')
        for f, text in self.complete(case, 1).items():
            if f not in final:
                raise Violation('%s > run with update: %s is missing' % (path, f))
            if not self.equal(final[f], text) and f != 'traj.xyz':
                raise Violation('%s > run with update: %s is not up to date' % (path, f))
        self.compared += 1
        return list(found.values()), events

    def kill(self, case, state, form, folder, events, path):
        """Check that actual deaths of the process leave the observed states"""
        chosen = [i for i, x in enumerate(events) if x[1] is not None]
        step = 1 if self.thorough else max(1, len(chosen) // 6)
        for i in chosen[::step]:
            self.materialize(case, state, form, folder)
            pid = os.fork()
            if pid == 0:
                count = [0]

                def event(kind):
                    if count[0] == i:
                        os._exit(3)
                    count[0] += 1

                try:
                    go = self.start(case, folder, 1)
                    with Monitor(folder, case['buffering'] == 'line', event):
                        go()
                finally:
                    os._exit(4)
            _, status = os.waitpid(pid, 0)
            got = {f: normal(x) for f, x in listing(folder).items()}
            expected = {f: normal(x) for f, x in events[i][1].items()}
            self.counts['kills'] += 1
            if os.WEXITSTATUS(status) != 3:
                raise RuntimeError('the process ended with %s' % status)
            if sorted(got.values()) != sorted(expected.values()):
                raise RuntimeError('killing the process at event %d leaves %s instead of %s' % (i, sorted(got), sorted(expected)))

    def faults(self, case, state, form, folder, events, path):
        """Interrupts whenever files are being changed, full disk at each write"""
        found = {}
        changing = [i for i, x in enumerate(events) if x[1] is not None or x[2]]
        near = sorted({j for i in changing for j in range(i - 3, i + 4) if 0 <= j < len(events)})
        writes = [i for i, x in enumerate(events) if x[0] == 'write']
        for what, points in (('interrupt', near), ('disk full', writes)):
            for i in points:
                self.materialize(case, state, form, folder)
                go = self.start(case, folder, 1)
                count = [0]

                def event(kind):
                    n = count[0]
                    count[0] += 1
                    if what == 'interrupt' and n == i:
                        raise KeyboardInterrupt
                    if what == 'disk full' and n >= i and kind == 'write':
                        raise OSError(errno.ENOSPC, 'No space left on device')

                outcome = 'completed'
                try:
                    with Monitor(folder, case['buffering'] == 'line', event):
                        go()
                except KeyboardInterrupt:
                    outcome = 'interrupt'
                except OSError as exc:
                    if exc.errno != errno.ENOSPC:
                        raise
                    outcome = 'failure'
                self.counts['faults'] += 1
                self.calls += 1
                where = '%s at event %d' % (what, i)
                snapshot = listing(folder)
                canonical = self.guarded(case, snapshot, path, where)
                if outcome == 'completed' and what == 'disk full':
                    raise Violation('%s > %s: no error was reported' % (path, where))
                if canonical not in found:
                    found[canonical] = snapshot, canonical, where
        return list(found.values())
