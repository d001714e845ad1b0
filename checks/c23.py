"""
C23: analyses running at the same time in the same folder do not spoil each other's outputs.

Space: two (thorough: also three) processes, each one running do(), do(update=True) or
a high-level function, on the same trajectory or on different ones, which write the same
outputs or outputs in the same folder, starting from an empty, missing or existing
folder.  The processes are real, forked ones, run by a controlled scheduler: each
access to the folder (stat, open, write, rename, mkdir, ...) is a scheduling point.
All interleavings are explored, up to the merging of states (content of the folder +
what each process has observed), or all those with a bounded number of preemptions.
"""
import json
import os
import io
import builtins
import select
import shutil
import signal
import sys
import traceback
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from checks.c14 import builders
from checks.c15 import parse, plain
from checks.c16 import ApiUser, START, TICK, TWO_VARIABLES, same_table
from checks.c17 import listing, normal
from mc.worlds import World

STATS = ['stat', 'lstat', 'access']
PATHS = ['mkdir', 'rmdir', 'remove', 'unlink', 'rename', 'replace', 'link', 'symlink', 'truncate', 'utime', 'listdir', 'scandir',
         'chmod', 'readlink']
PATIENCE = 90.0


class Actor:
    """The child's side of the scheduler"""

    def __init__(self, folder, receive, send):
        self.folder, self.receive, self.send = folder, receive, send
        self.active = False
        self.last = None

    def inside(self, path):
        if not isinstance(path, (str, bytes, os.PathLike)):
            return False
        path = os.path.abspath(os.fsdecode(path))
        return path == self.folder or path.startswith(self.folder + '/')

    def report(self, data):
        data = json.dumps(data).encode() + b'\n'
        while data:
            data = data[os.write(self.send, data):]

    def point(self, what, *paths):
        """Wait for our turn"""
        self.active = False
        self.report({'op': what, 'paths': [os.path.relpath(os.path.abspath(os.fsdecode(p)), self.folder) for p in paths],
                     'last': self.last})
        self.last = None
        if os.read(self.receive, 1) != b'g':
            os._exit(5)
        self.active = True

    def wrap(self, module, name):
        original = getattr(module, name)

        def wrapped(*args, **kwargs):
            paths = [x for x in list(args[:2]) + list(kwargs.values()) if self.inside(x)]
            if not self.active or not paths:
                return original(*args, **kwargs)
            self.point(name, *paths)
            self.active = False
            try:
                result = original(*args, **kwargs)
                self.last = self.digest(name, result)
                return result
            except OSError as exc:
                self.last = 'error %s' % exc.errno
                raise
            finally:
                self.active = True

        setattr(module, name, wrapped)

    @staticmethod
    def digest(name, result):
        if name in ('stat', 'lstat'):
            return 'mode %o size %d %s' % (result.st_mode, result.st_size, 'old' if result.st_mtime_ns < START + 10 * TICK else 'new')
        if name == 'listdir':
            return sorted(map(str, result))
        return 'ok' if result is None or not isinstance(result, (bool, int, str)) else result

    def patch(self):
        for name in STATS + PATHS:
            self.wrap(os, name)
        actor = self
        os_open, io_open = os.open, io.open

        def low(path, flags, *args, **kwargs):
            if not actor.active or not actor.inside(path):
                return os_open(path, flags, *args, **kwargs)
            actor.point('os.open %d' % flags, path)
            actor.active = False
            try:
                fd = os_open(path, flags, *args, **kwargs)
                actor.last = 'ok'
                return fd
            except OSError as exc:
                actor.last = 'error %s' % exc.errno
                raise
            finally:
                actor.active = True

        os.open = low

        class Raw(io.FileIO):

            def write(self, data):
                data = bytes(data)
                n, start = len(data), 0
                for cut in sorted({n // 2, n}) if n > 1 else [n]:
                    if actor.active and actor.watched:
                        actor.point('write %d' % (cut - start))
                    start += super().write(data[start:cut])
                return start

            def close(self):
                if actor.active and actor.watched and not self.closed and self.writable():
                    actor.point('close')
                super().close()

            def readinto(self, buffer):
                if actor.active and actor.watched:
                    actor.point('read')
                n = super().readinto(buffer)
                actor.last = str(hash(normal(bytes(buffer[:n]).decode(errors='replace'))))
                return n

            def readall(self):
                if actor.active and actor.watched:
                    actor.point('read')
                data = super().readall()
                actor.last = str(hash(normal(data.decode(errors='replace'))))
                return data

        self.watched = True
        opener = {'r': io.BufferedReader, 'w': io.BufferedWriter, 'x': io.BufferedWriter, 'a': io.BufferedWriter}

        def text(file, mode='r', *args, **kwargs):
            if isinstance(file, int):
                # Descriptors made by os.open: writes and closing are points anyway
                if not actor.active or 'b' in mode or '+' in mode or not actor.inside(os.readlink('/proc/self/fd/%d' % file)):
                    return io_open(file, mode, *args, **kwargs)
            elif not actor.active or not actor.inside(file):
                return io_open(file, mode, *args, **kwargs)
            else:
                actor.point('open ' + mode, file)
            actor.active = False
            try:
                if '+' in mode or 'b' in mode:
                    fh = io_open(file, mode, *args, **kwargs)
                else:
                    raw = Raw(file, mode.replace('t', ''), closefd=kwargs.get('closefd', True), opener=kwargs.get('opener'))
                    fh = io.TextIOWrapper(opener[mode[0]](raw), encoding=kwargs.get('encoding'), newline=kwargs.get('newline'))
                actor.last = 'ok'
                return fh
            except OSError as exc:
                actor.last = 'error %s' % exc.errno
                raise
            finally:
                actor.active = True

        builtins.open = io.open = text
        import fcntl
        for name in ('flock', 'lockf'):
            self.lock(fcntl, name)

    def lock(self, fcntl, name):
        """Locks: try until it works, so that the others can go on"""
        original = getattr(fcntl, name)
        actor = self

        def wrapped(fd, operation, *args):
            if not actor.active:
                return original(fd, operation, *args)
            while True:
                actor.point(name + (' wait' if operation & ~fcntl.LOCK_UN else ''))
                try:
                    actor.active = False
                    return original(fd, operation | (0 if operation & fcntl.LOCK_UN else fcntl.LOCK_NB), *args)
                except OSError:
                    if operation & fcntl.LOCK_NB:
                        raise
                    actor.last = 'blocked'
                finally:
                    actor.active = True

        setattr(fcntl, name, wrapped)


class Process:
    """The controller's side"""

    def __init__(self, check, case, i, folder, others):
        down, up = os.pipe(), os.pipe()
        self.history = []
        self.state = None
        self.blocked = False
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 4
            try:
                signal.alarm(0)
                for fd in [down[1], up[0]] + [x for p in others for x in (p.send, p.receive)]:
                    os.close(fd)
                actor = Actor(os.path.join(folder, 'out'), down[0], up[1])
                go = check.start(case, i, folder)
                actor.patch()
                actor.active = True
                try:
                    result = go()
                    actor.active = False
                    actor.report({'done': True, 'result': result, 'last': actor.last})
                except BaseException as exc:
                    actor.active = False
                    where = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in traceback.extract_tb(exc.__traceback__)][-4:]
                    actor.report({'failed': '%s: %s [%s]' % (type(exc).__name__, exc, ' > '.join(where))})
                code = 0
            finally:
                os._exit(code)
        os.close(down[0])
        os.close(up[1])
        self.send, self.receive = down[1], up[0]
        self.buffer = b''

    def wait(self):
        """Wait until the process gets to the next scheduling point or to its end"""
        while b'\n' not in self.buffer:
            ready, _, _ = select.select([self.receive], [], [], PATIENCE)
            if not ready:
                raise Violation('a process is stuck after %s' % self.history[-3:])
            data = os.read(self.receive, 65536)
            if not data:
                raise Violation('a process died after %s' % self.history[-3:])
            self.buffer += data
        line, self.buffer = self.buffer.split(b'\n', 1)
        self.state = json.loads(line)
        if self.state.get('last') is not None and self.history:
            self.history[-1] = self.history[-1][:2] + (self.state['last'], )
        self.blocked = self.state.get('last') == 'blocked'

    @property
    def over(self):
        return 'done' in self.state or 'failed' in self.state

    def step(self):
        self.history.append((self.state['op'], tuple(self.state['paths']), None))
        os.write(self.send, b'g')
        self.wait()

    def end(self):
        os.close(self.send)
        os.close(self.receive)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


class Check(Base):

    pid = 'C23'
    technique = ('stateless model checking of the real code: real processes under a controlled scheduler, all interleavings of their accesses '
                 'to the folder (with merging of equal states), or all those with a bounded number of preemptions')
    bounds = ('two (thorough: also three) simultaneous runs x 8 kinds of objects and 3 high-level functions x do / do(update) x same or different trajectories x '
              'missing folder / older outputs / up-to-date outputs; every access to the folder is a scheduling point; '
              'all interleavings for one or two outputs, else <=2 preemptions (thorough: all, or <=3)')
    case_timeout = {'quick': 400, 'thorough': 3 * 3600}
    assumptions = ['a system call is atomic; the processes are deterministic given what they observe',
                   'accesses are those made through os, open and fcntl']

    def setup(self):
        self.tmp = scratch_root()
        self.ref = {}
        self.counts = {'schedules': 0, 'scheduling_steps': 0, 'merged_states': 0}

    def extra_coverage(self):
        return dict(self.counts)

    def cases(self):
        def case(kinds, modes=None, versions=None, initial='missing', preemptions=None):
            n = len(kinds)
            return {'kinds': kinds, 'modes': modes or ['do'] * n, 'versions': versions or [0] * n, 'initial': initial,
                    'preemptions': preemptions}
        # Bounds on preemptions for few, several and many outputs
        few, several, many = (None, None, 2) if self.thorough else (2, 1, 1)
        # Long ones first
        for initial in ('missing', 'old'):
            yield case(['msd-partial', 'msd-partial'], versions=[0, 1], initial=initial, preemptions=3 if self.thorough else few)
        for kind in ('sk-partial', 'gr-partial', 'fkt-partial'):
            yield case([kind, kind], versions=[0, 1], initial='old' if kind == 'sk-partial' else 'missing', preemptions=many)
        for name in ('api-gr', 'api-fskt', 'api-msd'):
            for update in ('do', 'update'):
                if not self.thorough and update == 'do' and name != 'api-msd':
                    continue
                yield case([name, name], modes=[update, update], versions=[0, 1], initial='old' if update == 'update' else 'missing', preemptions=many)
        for modes in (['do', 'do'], ['update', 'update'], ['update', 'do']):
            for versions in ([0, 1], [0, 0]):
                full = modes[0] == modes[1] and versions == [0, 1]
                full = full and modes[0] == 'update'
                yield case(['msd', 'msd'], modes, versions, 'missing', None if full or self.thorough else few)
        yield case(['msd', 'msd-partial'], initial='missing', preemptions=few)
        yield case(['msd', 'sk-partial'], initial='old', preemptions=several)
        yield case(['msd-partial', 'msd-partial'], modes=['update', 'do'], versions=[0, 1], initial='fresh', preemptions=few)
        yield case(['msd', 'sk'], initial='missing', preemptions=few)
        yield case(['msd', 'chi4'], initial='empty', preemptions=few)
        yield case(['msd', 'msd-nested'], initial='missing', preemptions=few)
        yield case(['msd-nested', 'sk-nested'], initial='missing', preemptions=few)
        for kind in ('msd', 'chi4', 'fkt', 'fskt', 'sk'):
            for initial in ('empty', 'old', 'fresh', 'missing'):
                for modes in (['do', 'do'], ['update', 'do'], ['update', 'update']):
                    if initial == 'fresh' and modes == ['do', 'do']:
                        continue
                    if initial == 'missing' and (kind == 'msd' or modes == ['update', 'do'] and not self.thorough):
                        continue
                    if kind not in ('msd', 'fkt') and initial == 'empty':
                        continue
                    for versions in ([0, 1], [0, 0]):
                        if versions == [0, 0] and (kind != 'msd' or initial == 'fresh'):
                            continue
                        bound = few if initial == 'missing' else None
                        if kind in ('fkt', 'fskt', 'chi4'):
                            bound = many if not self.thorough else 2 if kind == 'chi4' else 3
                            if (kind, initial, modes) == ('fkt', 'old', ['update', 'update']):
                                bound = few
                        yield case([kind, kind], modes, versions, initial, bound)
        if self.thorough:
            for modes, versions, initial in ((['do', 'do', 'do'], [0, 1, 0], 'old'), (['do', 'update', 'do'], [0, 0, 1], 'old'),
                                             (['do', 'update', 'do'], [0, 0, 1], 'fresh'), (['do', 'do', 'do'], [0, 0, 0], 'missing')):
                yield case(['msd', 'msd', 'msd'], modes, versions, initial, preemptions=3)
            yield case(['msd', 'sk', 'chi4'], initial='missing', preemptions=3)

    def world(self, version):
        return World(layout='AABB', frames=3, masses='mixed', seed=version % 2, amp=0.3 if version % 2 else 0.22)

    def start(self, case, i, folder):
        """Prepare process i of the case. Return the function that does the work"""
        kind, version, update = case['kinds'][i], case['versions'][i], case['modes'][i] == 'update'
        path = os.path.join(folder, 'in%d' % version, 'traj.xyz')
        pattern = os.path.join(folder, 'out', 'a', '{symbol}.{tag}.dat')
        if kind.endswith('-nested'):
            kind = kind[:-7]
            pattern = os.path.join(folder, 'out', 'a', 'b', '{symbol}.{tag}.dat')
        if kind.startswith('api-'):
            import atooms.postprocessing.core as core
            core.pp_output_path = pattern
            user = ApiUser(self, kind[4:], folder)

            def go():
                user.function(path, update)
            return go
        world = self.world(version)
        c = builders()[kind](world.trajectory(path), None)
        c.output_path = pattern

        def go():
            c.do(update=update)
            parts = c.partial if hasattr(c, 'partial') else {'': c}
            if kind in TWO_VARIABLES:
                return None
            return [(part.tag, [[float(x), float(y)] for x, y in zip(plain(part.grid), plain(part.value))]) for part in parts.values()]
        return go

    def prepare(self, case, folder):
        """Trajectories and older outputs"""
        for version in sorted(set(case['versions'])):
            path = os.path.join(folder, 'in%d' % version)
            os.makedirs(path)
            path = os.path.join(path, 'traj.xyz')
            self.world(version).write_xyz(path)
            os.utime(path, ns=(START, START))
        if case['initial'] == 'missing':
            return
        out = os.path.join(folder, 'out')
        os.makedirs(os.path.join(out, 'a'))
        if case['initial'] == 'empty':
            return
        # Outputs of a previous run of the first process
        stamp = START - TICK if case['initial'] == 'old' else START + TICK
        for f, text in self.outputs(case['kinds'][0], case['versions'][0]).items():
            path = os.path.join(out, f)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as fh:
                fh.write(text.replace('# date:', '# date: 0') if case['initial'] == 'fresh' else text)
            os.utime(path, ns=(stamp, stamp))

    def outputs(self, kind, version):
        """What a single run writes"""
        key = kind, version
        if key not in self.ref:
            folder = os.path.join(self.tmp, 'ref-%d' % os.getpid())
            os.makedirs(folder)
            case = {'kinds': [kind], 'versions': [version], 'modes': ['do'], 'initial': 'missing'}
            self.prepare(case, folder)
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    self.start(case, 0, folder)()
                    code = 0
                finally:
                    os._exit(code)
            if os.waitpid(pid, 0)[1] != 0:
                raise Violation('a single run of %s failed' % kind)
            self.ref[key] = listing(os.path.join(folder, 'out'))
            shutil.rmtree(folder)
        return self.ref[key]

    # Exploration

    def run(self, case):
        self.valid = {}
        for kind, version in zip(case['kinds'], case['versions']):
            for f, text in self.outputs(kind, version).items():
                self.valid.setdefault(f, []).append(normal(text))
        self.cache = {}
        base = os.path.join(self.tmp, 'case-%d' % os.getpid())
        if os.path.exists(base):
            shutil.rmtree(base)
        os.makedirs(base)
        self.finals = set()
        try:
            n = len(case['kinds'])
            bound = case['preemptions']
            visited = {}
            stack = [()]
            while stack:
                prefix = stack.pop()
                self.execute(case, base, prefix, n, bound, visited, stack)
            self.counts['merged_states'] += len(visited)
            self.outcome(case, sorted(self.finals))
        finally:
            shutil.rmtree(base)

    def execute(self, case, base, prefix, n, bound, visited, stack):
        folder = os.path.join(base, 'run')
        os.mkdir(folder)
        self.prepare(case, folder)
        processes = []
        schedule = []
        try:
            for i in range(n):
                processes.append(Process(self, case, i, folder, processes))
            for p in processes:
                p.wait()
            preemptions = 0
            last = None
            while True:
                enabled = [i for i in range(n) if not processes[i].over]
                if not enabled:
                    break
                free = [i for i in enabled if not processes[i].blocked]
                if len(schedule) < len(prefix):
                    i = prefix[len(schedule)]
                else:
                    if not free:
                        if len(schedule) > 5000:
                            raise Violation('the processes wait for each other')
                        free = enabled
                    key = self.key(processes, folder)
                    if bound is not None:
                        key = key + (last, )
                    if visited.get(key, 10**9) <= preemptions:
                        break
                    visited[key] = preemptions
                    i = last if last in free else free[0]
                    for j in free:
                        if j == i:
                            continue
                        if bound is not None and last in free and preemptions >= bound:
                            continue
                        stack.append(tuple(schedule) + (j, ))
                if last is not None and i != last and last in free:
                    preemptions += 1
                processes[i].step()
                schedule.append(i)
                last = i
                if len(schedule) >= len(prefix):
                    self.invariant(case, processes, folder)
                self.counts['scheduling_steps'] += 1
            else:
                raise RuntimeError
            if all(p.over for p in processes):
                self.final(case, processes, folder)
            self.counts['schedules'] += 1
            self.calls += n
        except Violation as v:
            detail = ['%d:%s%s' % (i, op, ','.join(paths) and ' ' + ','.join(paths)) for i, (op, paths, _) in self.trace(schedule, processes)]
            raise Violation('%s after %s' % (v.args[0], detail[-12:]))
        finally:
            for p in processes:
                p.end()
            shutil.rmtree(folder)

    @staticmethod
    def trace(schedule, processes):
        count = [0] * len(processes)
        for i in schedule:
            yield i, processes[i].history[count[i]]
            count[i] += 1

    def key(self, processes, folder):
        """State, with canonical names of temporary files"""
        names = {}

        def canonical(path):
            if path in self.valid or os.path.isdir(os.path.join(folder, 'out', path)) or path in ('.', 'a', 'a/b'):
                return path
            return names.setdefault(path, 'x%d' % len(names))

        histories = tuple(tuple((op, tuple(canonical(p) for p in paths), repr(result)) for op, paths, result in p.history)
                          for p in processes)
        content = tuple(sorted((canonical(f), normal(text)) for f, text in listing(os.path.join(folder, 'out')).items()))
        pending = tuple((p.state.get('op'), tuple(map(canonical, p.state.get('paths', ())))) for p in processes)
        return hash(histories), hash(content), hash(pending)

    def which(self, f, text):
        """Index of the version"""
        key = f, text
        if key not in self.cache:
            found = None
            for i, reference in enumerate(self.valid[f]):
                if normal(text).replace('# date: 0', '# date:') == reference or self.table(text, reference):
                    found = i
                    break
            self.cache[key] = found
        return self.cache[key]

    @staticmethod
    def table(text, reference):
        try:
            return same_table(text, reference) and len(parse(text)[0]) == len(parse(reference)[0])
        except (Violation, ValueError):
            return False

    def invariant(self, case, processes, folder):
        for i, p in enumerate(processes):
            if 'failed' in p.state:
                raise Violation('process %d (%s) failed with %s' % (i, case['kinds'][i], p.state['failed']))
        for f, text in listing(os.path.join(folder, 'out')).items():
            if f in self.valid and self.which(f, text) is None:
                raise Violation('%s is not the complete output of any process: %r' % (f, text[-200:]))

    def final(self, case, processes, folder):
        self.invariant(case, processes, folder)
        files = listing(os.path.join(folder, 'out'))
        for f in self.valid:
            if f not in files:
                raise Violation('at the end %s is missing' % f)
        for f in files:
            if f not in self.valid:
                raise Violation('at the end %s is left in the folder' % f)
        self.finals.add(tuple(sorted((f, self.which(f, text)) for f, text in files.items())))
        self.compared += 1
        for i, p in enumerate(processes):
            result = p.state['result']
            if result is None:
                continue
            for tag, rows in result:
                text = ''.join('%.12g %.12g\n' % tuple(x) for x in rows)
                candidates = [x for f in self.valid for x in self.valid[f] if self.named(f, case['kinds'][i], tag)]
                if not any(same_table(text, x) for x in candidates):
                    raise Violation('process %d (%s) delivers %s' % (i, case['kinds'][i], rows))

    def named(self, f, kind, tag):
        names = set(self.outputs(kind, 0)) | set(self.outputs(kind, 1))
        f0 = os.path.basename(f)
        return f in names and (('.' + tag + '.' in f0) if tag else True)
