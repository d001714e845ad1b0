"""
C16: with update, stale or missing outputs are recomputed, fresh ones kept.

Space: all histories of bounded length over {rewrite the trajectory (newer, same
time stamp, older time stamp), touch it, delete outputs, do, do(update)} under a
logical clock, with new and reused objects, for every kind of correlation object
and for the high-level functions.  A model of the folder (versions and time stamps)
says after each operation which files must have been rewritten, with which content,
and which ones must not have been touched.
"""
import itertools
import os
import shutil
import numpy
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from mc.worlds import World
from checks.c14 import NAMES, builders, TWO
from checks.c15 import parse, agree, plain

START = 1000000000 * 10**9
TICK = 250 * 10**6
OPS = ['edit', 'edit0', 'old', 'touch', 'rm', 'rmlast', 'do', 'update', 'update0']
API = ['msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'gr', 'sk', 'ik', 'alpha2', 'qst', 'qt', 'ba']
DEEP = ['msd', 'msd-partial', 'gr-partial', 'chi4']
TWO_VARIABLES = ['fskt', 'fskt-default', 'fsktlegacy', 'fkt', 'fkt-default', 's4kt', 'fkt-partial']


def same_table(a, b):
    ca, ra = parse(a)
    cb, rb = parse(b)
    if len(ra) != len(rb) or any(len(x) != len(y) for x, y in zip(ra, rb)):
        return False
    return all(agree(x, y) or abs(x - y) < 1e-9 for p, q in zip(ra, rb) for x, y in zip(p, q))


class Check(Base):

    pid = 'C16'
    technique = ('explicit-state exploration of histories: all bounded sequences of changes of the files and updates, run on the real code '
                 'in a scratch folder under a logical clock, in lockstep with a model of time stamps and versions')
    bounds = ('all histories of <=3 operations (4 kinds of objects: 4; thorough: 4 and 5) out of 9, the last one an update, for 38 kinds of '
              'objects x new / reused object; the same for trajectories in memory, with histories of <=2; high-level functions: all histories of <=2 (thorough: 3) operations for 12 functions')
    assumptions = ['an output with the same time stamp as the trajectory is not trusted',
                   'files of functions of two variables cannot be read back (a documented limitation): they are kept or rewritten']

    def setup(self):
        self.tmp = scratch_root()
        self.ref = {}

    def histories(self, depth):
        for n in range(1, depth + 1):
            for h in itertools.product(OPS, repeat=n):
                if h[-1] in ('update', 'update0'):
                    yield list(h)

    def cases(self):
        for name in NAMES:
            if name in ('susceptibility', 'ba-default'):
                continue
            depth = (4 if name in DEEP else 3) + (1 if self.thorough else 0)
            for h in self.histories(depth):
                for reuse in (False, True):
                    if reuse and len(h) > (4 if self.thorough else 3):
                        continue
                    if 'rmlast' in h and not name.endswith('partial'):
                        continue
                    yield {'name': name, 'reuse': reuse, 'history': h}
        for name in API:
            for h in self.histories(3 if self.thorough else 2):
                yield {'name': name, 'api': True, 'history': h}

        # The trajectory is not on disk: an update always computes
        for name in NAMES:
            if name in ('susceptibility', 'ba-default'):
                continue
            for n in (1, 2, 3):
                for h in itertools.product(('edit', 'rm', 'do', 'update'), repeat=n):
                    if h[-1] == 'update' and (n < 3 or name in DEEP or self.thorough):
                        for reuse in (False, True):
                            yield {'name': name, 'reuse': reuse, 'memory': True, 'history': list(h)}

    # The folder

    def world(self, version):
        return World(layout='AABABBABAB', frames=4, masses='mixed', seed=version % 2, amp=0.3 if version % 2 else 0.22)

    def run(self, case):
        folder = os.path.join(self.tmp, 'case-%d' % os.getpid())
        if os.path.exists(folder):
            shutil.rmtree(folder)
        os.mkdir(folder)
        try:
            if case.get('memory'):
                self.memory(case, folder)
            elif case.get('api'):
                self.explore(case, folder, ApiUser(self, case['name'], folder))
            else:
                self.explore(case, folder, ObjectUser(self, case['name'], folder, case['reuse']))
        finally:
            shutil.rmtree(folder)

    def explore(self, case, folder, user):
        path = os.path.join(folder, 'traj.xyz')
        clock = START
        version = 0
        user.trajectory(path, version)
        os.utime(path, ns=(clock, clock))
        stamp = clock
        model = {}    # output -> (version, time)
        for i, op in enumerate(case['history']):
            where = '%s after %s' % (case['name'], case['history'][:i + 1])
            if op in ('edit', 'touch', 'update', 'do'):
                clock += TICK
            if op in ('edit', 'edit0', 'old', 'touch'):
                if op != 'touch':
                    version += 1
                    user.trajectory(path, version)
                stamp = START - TICK if op == 'old' else clock
                os.utime(path, ns=(stamp, stamp))
                continue
            outputs = user.outputs()
            if op == 'rm' or op == 'rmlast':
                todo = outputs[0][0] if op == 'rm' else outputs[-1][-1]
                if todo in model:
                    os.remove(os.path.join(folder, todo))
                    del model[todo]
                continue
            # Each group of outputs is updated together
            stale = []
            for group in outputs:
                if op == 'do' or any(f not in model or model[f][1] <= stamp for f in group):
                    stale += group
            before = self.listing(folder)
            delivered = user.calculate(path, version, op != 'do')
            self.calls += 1
            after = self.listing(folder)
            for group in outputs:
                for f in group:
                    if f in stale:
                        if f not in after:
                            raise Violation('%s: %s was not written' % (where, f))
                        if before.get(f) == after[f]:
                            raise Violation('%s: %s was not recomputed' % (where, f))
                        model[f] = version, clock
                    elif before.get(f) != after.get(f):
                        raise Violation('%s: %s was touched although it was up to date' % (where, f))
                    reference = user.reference(model[f][0], f)
                    with open(os.path.join(folder, f)) as fh:
                        text = fh.read()
                    if not same_table(text, reference):
                        raise Violation('%s: %s differs from a new calculation for version %s of the trajectory: %s instead of %s' % (
                            where, f, model[f][0], text[:500], reference[:500]))
                    if delivered is not None and case['name'] not in TWO_VARIABLES:
                        rows = parse(text)[1]
                        if not same_table(''.join('%.12g %.12g\n' % (x, y) for x, y in rows),
                                          ''.join('%.12g %.12g\n' % (x, y) for x, y in delivered[f])):
                            raise Violation('%s: the object delivers %s instead of the content of %s: %s' % (
                                where, delivered[f], f, rows))
                    self.compared += 1
            known = set(f for group in outputs for f in group)
            for f in after:
                if f not in known and not f.endswith('.tau') and 'qsu' not in f and 'q2su' not in f and f != 'traj.xyz':
                    raise Violation('%s: unexpected file %s' % (where, f))
                if after[f] != before.get(f) and f != 'traj.xyz':
                    os.utime(os.path.join(folder, f), ns=(clock, clock))
            if after['traj.xyz'] != before['traj.xyz']:
                raise Violation('%s: the trajectory was modified' % where)
        self.outcome(case['name'], sorted(model.items()))

    def memory(self, case, folder):
        user = ObjectUser(self, case['name'], folder, case['reuse'], True)
        version = 0
        names = user.outputs()[0]
        for i, op in enumerate(case['history']):
            if op == 'edit':
                version += 1
                continue
            if op == 'rm':
                if os.path.exists(os.path.join(folder, names[0])):
                    os.remove(os.path.join(folder, names[0]))
                continue
            before = self.listing(folder)
            user.calculate('traj.xyz', version, op != 'do')
            self.calls += 1
            after = self.listing(folder)
            for f in names:
                where = '%s in memory after %s: %s' % (case['name'], case['history'][:i + 1], f)
                if f not in after or before.get(f) == after[f]:
                    raise Violation('%s was not written' % where)
                with open(os.path.join(folder, f)) as fh:
                    text = fh.read()
                if not same_table(text, user.reference(version, f)):
                    raise Violation('%s differs from a new calculation for version %s of the trajectory: %s instead of %s' % (
                        where, version, text[:500], user.reference(version, f)[:500]))
                self.compared += 1
        self.outcome(case['name'], case['history'])

    @staticmethod
    def listing(folder):
        out = {}
        for f in sorted(os.listdir(folder)):
            s = os.stat(os.path.join(folder, f))
            out[f] = s.st_mtime_ns, s.st_ino, s.st_size
        return out


class ObjectUser:
    """Somebody using correlation objects, either new ones each time or the same one"""

    def __init__(self, check, name, folder, reuse, memory=False):
        self.memory = memory
        self.check, self.name, self.folder, self.reuse = check, name, folder, reuse
        self.object = None
        self.names = None

    def trajectory(self, path, version):
        with open(path, 'w') as fh:
            fh.write('version %d' % version)

    def new(self, path, version):
        world = self.check.world(version)
        radius = os.path.join(self.check.tmp, 'radius-%d-%d.xyz' % (version % 2, os.getpid()))
        if not os.path.exists(radius):
            world.write_xyz(radius)
        c = builders()[self.name](world.trajectory(path if not self.memory else None), radius)
        if self.memory:
            c.output_path = os.path.join(self.folder, 'traj.xyz.pp.{symbol}.{tag}')
        return c

    @staticmethod
    def parts(c):
        return list(c.partial.values()) if hasattr(c, 'partial') else [c]

    def outputs(self):
        """All partials are updated together"""
        if self.names is None:
            c = self.new(os.path.join(self.folder, 'traj.xyz'), 0)
            self.names = [self.file(x) for x in self.parts(c)]
        return [self.names]

    def file(self, part):
        from checks.c15 import SYMBOL
        tag = part.tag
        name = self.name.split('-')[0]
        return 'traj.xyz.pp.%s%s' % (SYMBOL[name], '.' + tag if tag else '')

    def calculate(self, path, version, update):
        if self.reuse and self.object is not None:
            c = self.object
            world = self.check.world(version)
            for part in self.parts(c):
                part.trajectory.world = world
        else:
            c = self.object = self.new(path, version)
        c.do(update=update)
        out = {}
        if self.name not in TWO_VARIABLES:
            for part in self.parts(c):
                out[self.file(part)] = list(zip(plain(part.grid), plain(part.value)))
        return out

    def reference(self, version, f):
        key = self.name, version % 2
        if key not in self.check.ref:
            folder = os.path.join(self.check.tmp, 'ref-%d' % os.getpid())
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, 'traj.xyz')
            self.trajectory(path, version)
            memory, self.memory = self.memory, False
            self.new(path, version).do()
            self.memory = memory
            out = {}
            for x in os.listdir(folder):
                with open(os.path.join(folder, x)) as fh:
                    out[x] = fh.read()
            shutil.rmtree(folder)
            self.check.ref[key] = out
            a, b = [self.check.ref.get((self.name, v)) for v in (0, 1)]
            if a and b and all(parse(a[x])[1] == parse(b[x])[1] for x in a if x != 'traj.xyz'):
                raise RuntimeError('versions are not distinguishable')
        return self.check.ref[key][f]


class ApiUser(ObjectUser):
    """Somebody using the high-level functions"""

    def __init__(self, check, name, folder):
        super().__init__(check, name, folder, False)

    def trajectory(self, path, version):
        # Enough particles to determine the default cutoffs of bond angles
        world = self.check.world(version)
        if self.name == 'ba':
            world = World(layout='AB' * 16, frames=2, L=4.0, seed=version % 2)
        world.write_xyz(path)

    def function(self, path, update):
        import atooms.postprocessing.api as api
        kwargs = {'update': update}
        if self.name in ('fkt', 'fskt', 'sk', 'ik'):
            kwargs.update(kgrid='1.3,1.8', nk=2)
        if self.name in ('fkt', 'fskt', 'chi4qs'):
            kwargs.update(tsamples=3)
        if self.name == 'gr':
            kwargs.update(dr=0.3)
        if self.name == 'ba':
            kwargs.update(dtheta=20.0)
        getattr(api, self.name)(path, **kwargs)

    def outputs(self):
        """The total and the partials are updated independently"""
        if self.names is None:
            base = 'traj.xyz.pp.' + self.name
            total, partial = [base], []
            if self.name in ('gr', 'sk', 'fkt', 'ba'):
                partial = [base + '.' + x for x in ('A-A', 'A-B', 'B-A', 'B-B')]
            elif self.name != 'ik':
                partial = [base + '.A', base + '.B']
            if self.name in ('fkt', 'fskt', 'chi4qs'):
                total = []
            self.names = [x for x in (total, partial) if x]
        return self.names

    def calculate(self, path, version, update):
        self.function(path, update)

    def reference(self, version, f):
        key = 'api', self.name, version % 2
        if key not in self.check.ref:
            folder = os.path.join(self.check.tmp, 'ref-%d' % os.getpid())
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, 'traj.xyz')
            self.trajectory(path, version)
            self.function(path, False)
            out = {}
            for x in os.listdir(folder):
                with open(os.path.join(folder, x)) as fh:
                    out[x] = fh.read()
            shutil.rmtree(folder)
            self.check.ref[key] = out
        return self.check.ref[key][f]
