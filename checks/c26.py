"""
C26: results depend on the data of the trajectory, not on the object or file it comes from.

Space: the same data provided in each of the ways below (in memory, files of several formats,
compressed, in folders, parts of longer trajectories, decorated, with cache, as a path, with
attributes of other types or memory layouts, arguments of other types), for each function, total, partial, filtered and
weighted results, with and without fixed center of mass, each computed twice on the same object,
in several kinds of trajectories.  The results must be those from a plain trajectory, and what
is stored in memory must be left as it was.
"""
import bz2
import copy
import gzip
import os
import numpy
from mc import build
from mc.build import K1
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from mc.worlds import World, close

NAMES = build.TIME + build.STATIC + ['sacf', 'gr-linked', 'msd-cm', 'fskt-cm', 'fkt-cm', 'sk-weight', 'sk-wtraj', 'fkt-wtraj', 'msd-default', 'vacf-default', 'alpha2-default', 'qst-default', 'fskt-default', 'fkt-default', 'qt-default', 'chi4-default', 'chi4opt-default',
                                    'sk-shells', 'fskt-shells', 'ba-cutoffs',
                                    'msd-filter', 'gr-filter', 'fkt-filter']
WORLDS = {
    'cubic': {},
    'blocks': {'steps': 'log3', 'frames': 6},
    'images': {'cell': 'ortho', 'images': 1},
    'osc': {'cell': 'osc'},
    'swap': {'nvar': 'swap', 'layout': 'AABABBABAB'},
}


def ram(world, cls, **kwargs):
    th = cls(mode='w', **kwargs)
    for f in range(world.frames):
        th.write(world.system(f), world.steps[f])
    th.timestep = world.timestep
    return th


def retyped(change):
    """A trajectory whose systems are modified by a function"""
    def store(check, world):
        new = copy.copy(world)

        def system(frame):
            s = world.system(frame)
            change(s)
            return s
        new.system = system
        return new.trajectory()
    return store


def each(what, how):
    def change(system):
        for p in system.particle:
            setattr(p, what, how(getattr(p, what)))
    return change


def fortran(system):
    """Positions and velocities are views on arrays in fortran order"""
    for what in ('position', 'velocity'):
        x = numpy.asfortranarray([getattr(p, what) for p in system.particle])
        for i, p in enumerate(system.particle):
            setattr(p, what, x[i])


def viewed(system):
    """The user had asked for views of the arrays of the system"""
    system.view('position')
    system.view('velocity')


def cell_types(system):
    system.cell.side = numpy.asfortranarray(numpy.array(list(system.cell.side) + [1.0])[:-1])
    system.cell.center = numpy.zeros(len(system.cell.side))


def cell_integer(system):
    system.cell.side = system.cell.side.astype(int)
    system.cell.center = numpy.zeros(len(system.cell.side), dtype=int)


def integers(system):
    """All that is not a position is an integer"""
    for p in system.particle:
        p.velocity = p.velocity.astype(int)
        p.mass, p.charge, p.radius = int(p.mass), int(p.charge), int(p.radius)
    if hasattr(system, 'interaction') and system.interaction is not None:
        system.interaction.stress = system.interaction.stress.astype(int)


class Str(str):
    pass


# Ways to provide the data: (function, deviations from the exact data, what is available)

def xyz(check, world):
    from atooms.trajectory import TrajectoryXYZ
    return TrajectoryXYZ(check.path(world, 'xyz'))


def xyz_cached(check, world):
    from atooms.trajectory import Trajectory
    th = Trajectory(check.path(world, 'xyz'))
    th.cache = True
    return th


def path(check, world):
    return check.path(world, 'xyz')


def gz(check, world):
    from atooms.trajectory import TrajectoryXYZ
    return TrajectoryXYZ(check.path(world, 'xyz.gz'))


def bz(check, world):
    from atooms.trajectory import TrajectoryXYZ
    return TrajectoryXYZ(check.path(world, 'xyz.bz2'))


def exyz(check, world):
    from atooms.trajectory import TrajectoryEXYZ
    return TrajectoryEXYZ(check.path(world, 'exyz'))


def foldered(check, world):
    from atooms.trajectory.folder import Foldered
    th = Foldered(check.path(world, 'folder'), cls='xyz')
    th.timestep = world.timestep
    return th


def supertrajectory(check, world):
    from atooms.trajectory import SuperTrajectory, TrajectoryXYZ
    return SuperTrajectory(check.path(world, 'pieces'), TrajectoryXYZ)


def sliced(check, world):
    from atooms.trajectory import Sliced
    return Sliced(world.trajectory(), slice(None, None, None))


def sliced_cached(check, world):
    from atooms.trajectory import Sliced, TrajectoryXYZ
    th = TrajectoryXYZ(check.path(Longer(world, 2, 1, 1), 'xyz'))
    th.cache = True
    return Sliced(th, slice(1, 1 + 2 * world.frames - 1, 2))


def given(kind):
    """Particles have unfolded positions of a given type"""
    def store(check, world):
        new = copy.copy(world)

        def system(frame):
            s = world.system(frame)
            for i, p in enumerate(s.particle):
                p.position_unfolded = world.unw[frame][i].astype(kind)
            return s
        new.system = system
        return new.trajectory()
    return store


def longer(n, start=0, end=0):
    """Frames are those of a longer trajectory"""
    def store(check, world):
        from atooms.trajectory import Sliced
        return Sliced(Longer(world, n, start, end).trajectory(), slice(start, start + n * world.frames - (n - 1) or None, n))
    return store


def sliced_file(check, world):
    from atooms.trajectory import Sliced, TrajectoryXYZ
    return Sliced(TrajectoryXYZ(check.path(Longer(world, 2, 1, 1), 'xyz')), slice(1, 1 + 2 * world.frames - 1, 2))


def ram_plain(check, world):
    from atooms.trajectory.ram import TrajectoryRam
    return ram(world, TrajectoryRam)


def ram_view(check, world):
    from atooms.trajectory.ram import TrajectoryRamView
    return ram(world, TrajectoryRamView)


def ram_cached(check, world):
    th = ram_view(check, world)
    th.cache = True
    return th


def ram_viewed(check, world):
    th = ram_view(check, world)
    for s in th._system:
        viewed(s)
    return th


def ram_named(check, world):
    from atooms.trajectory.ram import TrajectoryRam
    return ram(world, TrajectoryRam, filename='%s/ram' % check.tmp)


def callback(check, world):
    th = world.trajectory()
    th.add_callback(lambda system: system)
    th.add_callback(copy.copy)
    return th


def callback_copy(check, world):
    th = world.trajectory(cache=True)
    th.add_callback(copy.deepcopy)
    return th


def numpy_steps(check, world):
    th = world.trajectory()
    th.steps = list(numpy.array(world.steps))
    return th


def tuple_steps(check, world):
    th = world.trajectory()
    th.steps = tuple(world.steps)
    return th


def rewritten(check, world):
    """The path had other data when the same function was first calculated"""
    from atooms.trajectory import TrajectoryXYZ
    other = World(dict(world.spec, seed=91, walk=None, L=1.04 * world.spec['L'], layout=world.spec['layout'].translate(str.maketrans('AB', 'BA'))))
    name = '%s/rewritten-%d.xyz' % (check.tmp, os.getpid())
    check.write(other, name, range(other.frames))
    check.compute(check.name, world, TrajectoryXYZ(name))
    stamp = os.stat(name)
    check.write(world, name, range(world.frames))
    os.utime(name, ns=(stamp.st_atime_ns, stamp.st_mtime_ns + 10**9))
    return TrajectoryXYZ(name)


def numpy_timestep(check, world):
    new = copy.copy(world)
    new.timestep = numpy.float64(world.timestep)
    return new.trajectory()


STORES = {
    'xyz': xyz, 'xyz-cached': xyz_cached, 'path': path, 'gz': gz, 'bz2': bz, 'exyz': exyz, 'foldered': foldered, 'super': supertrajectory, 'rewritten': rewritten,
    'sliced': sliced, 'second': longer(2), 'third-of-longer': longer(3, 2, 4), 'part': longer(1, 3, 2),
    'sliced-file': sliced_file, 'sliced-cached': sliced_cached, 'ram': ram_plain, 'ram-view': ram_view, 'ram-cached': ram_cached, 'ram-viewed': ram_viewed,
    'ram-named': ram_named, 'callback': callback, 'callback-copy': callback_copy,
    'numpy-steps': numpy_steps, 'tuple-steps': tuple_steps, 'timestep': numpy_timestep,
    'float32': retyped(each('position', lambda x: x.astype(numpy.float32))),
    'longdouble': retyped(each('position', lambda x: x.astype(numpy.longdouble))),
    'fortran': retyped(fortran), 'viewed': retyped(viewed), 'cell': retyped(cell_types),
    'species-numpy': retyped(each('species', numpy.str_)), 'species-class': retyped(each('species', Str)),
    'mass-numpy': retyped(each('mass', numpy.float32)), 'radius-numpy': retyped(each('radius', numpy.array)),
    'integer': retyped(each('position', lambda x: x.astype(int))),
    'integers': retyped(integers), 'cell-integer': retyped(cell_integer), 'given': given(float), 'given-integer': given(int), 'given-32': given(numpy.float32),
    'strided': retyped(each('position', lambda x: numpy.repeat(x, 2)[::2])),
    'readonly': retyped(each('position', lambda x: numpy.frombuffer(x.tobytes()))),
}
# Files are printed with 12 digits
ROUNDED = {'float32': 1e-5, 'given-32': 1e-5}
# Data are integers
INTEGER = ('integer', 'integers', 'given-integer')
# What is not in the file, or not given to partial functions
NO_FIELD = {'exyz'}
UNFOLDED = ['msd', 'alpha2', 'qst', 'qt', 'chi4', 'chi4opt', 's4kt']


# Types of the arguments

def sequences(x):
    """The same numbers in other sequences"""
    f = [float(y) for y in x]
    yield 'integers', list(x)
    yield 'tuple', tuple(f)
    yield 'array', numpy.array(f)
    yield 'array-int', numpy.array(x)
    yield 'array-32', numpy.array(x, dtype=numpy.float32)
    yield 'strided', numpy.repeat(f, 2)[::2]
    yield 'readonly', numpy.frombuffer(numpy.array(f).tobytes())
    yield 'numpy-32', [numpy.float32(y) for y in x]
    yield 'numpy-int', [numpy.int64(y) for y in x]
    yield 'range', range(x[0], x[-1] + 1)


def numbers(x):
    """The same number"""
    if isinstance(x, int):
        yield 'integer', x
        yield 'numpy-int', numpy.int64(x)
        yield 'numpy-int32', numpy.int32(x)
    yield 'numpy', numpy.float64(x)
    yield 'numpy-32', numpy.float32(x)
    yield 'array', numpy.array(float(x))


def counts(x):
    yield 'numpy-int', numpy.int64(x)
    yield 'numpy-int32', numpy.int32(x)


def tables(x):
    yield 'array', numpy.array(x)
    yield 'tuple', tuple(tuple(y) for y in x)
    yield 'fortran', numpy.asfortranarray(x)
    yield 'array-32', numpy.array(x, dtype=numpy.float32)


T, K = ('tgrid', [0, 1, 2, 3]), ('kgrid', [1, 2, 3])
# Numbers are exact in single precision
SHELLS = [('nk', 3), ('dk', 0.25)]
COUNTS = {'nk', 'tsamples', 'nsamples', 'ksamples', 'norigins', 'ndim'}
# Arguments of each function, among which the types of one at a time are changed
ARGUMENTS = {
    'msd': [[T], [('tsamples', 4), ('rmax', 1), ('sigma', 2)]],
    'vacf': [[T], [('tsamples', 3)]],
    'alpha2': [[T], [('nsamples', 3)]],
    'qst': [[T, ('a', 1)]], 'qt': [[T, ('a', 1)]], 'chi4': [[T, ('a', 1)]], 'chi4opt': [[T, ('a', 1)]],
    's4kt': [[T, K, ('a', 1)] + SHELLS],
    'fskt': [[T, K] + SHELLS, [T, ('kmin', 1), ('kmax', 3), ('ksamples', 3)] + SHELLS],
    'fsktlegacy': [[T, K] + SHELLS, [T, ('kmin', 1), ('kmax', 3), ('ksamples', 3)] + SHELLS],
    'fkt': [[T, K] + SHELLS, [T, ('kmin', 1), ('kmax', 3), ('ksamples', 3)] + SHELLS],
    'gr': [[('dr', 1)], [('dr', 0.25), ('rmax', 2)], [('rgrid', [1, 2, 3])]],
    'grlegacy': [[('dr', 1)], [('dr', 0.25), ('rmax', 2)], [('rgrid', [1, 2, 3])]],
    'sk': [[K] + SHELLS, [('kmin', 1), ('kmax', 3), ('ksamples', 3)] + SHELLS],
    'skfast': [[K] + SHELLS, [('kmin', 1), ('kmax', 3), ('ksamples', 3)] + SHELLS],
    'ik': [[K] + SHELLS, [('kmin', 1), ('kmax', 3), ('ksamples', 3)] + SHELLS],
    'ba': [[('dtheta', 20), ('rcut', [[2.5, 2.25], [2.25, 2.5]])], [('dtheta', 4), ('rcut', [[3, 3], [3, 3]])]],
    'sacf': [[T]],
}


def types(key, x):
    if key in COUNTS:
        return dict(counts(x))
    if isinstance(x, list) and isinstance(x[0], list):
        return dict(tables(x))
    return dict(sequences(x) if isinstance(x, list) else numbers(x))


def exact(x):
    """Numbers in double precision, in lists"""
    return [exact(y) for y in x] if isinstance(x, list) else float(x)


class Longer(World):

    """The frames of a world within those of another one"""

    def __init__(self, world, n, start, end):
        super().__init__(world.spec)
        total = start + n * (world.frames - 1) + 1 + end
        other = World(dict(world.spec, frames=total, steps='lin1', seed=77, walk=None))
        # Steps in between are interpolated
        where = {start + n * f: f for f in range(world.frames)}
        for attr in ('pos', 'unw', 'vel', 'side', 'species', 'index', 'field'):
            x, y = getattr(world, attr), getattr(other, attr)
            setattr(self, attr, [x[where[i]] if i in where else y[i] for i in range(total)])
        steps = []
        for i in range(total):
            f = (i - start) // n
            if i in where:
                steps.append(world.steps[where[i]] * n)
            elif i < start:
                steps.append((world.steps[0] - start + i) * n)
            elif f >= world.frames - 1:
                steps.append((world.steps[-1] + i) * n)
            else:
                steps.append(world.steps[f] * n + (i - start) % n)
        # Keep the steps of the original frames
        first = -min(0, min(steps))
        self.steps = [s + first for s in steps]
        self.timestep = world.timestep / n
        self.frames = total
        tensors = {i: World.stress(world, where[i]) if i in where else World.stress(other, i) for i in range(total)}
        self.stress = lambda f: tensors[f]
        self.key = (n, start, end)


class Check(Base):

    pid = 'C26'
    technique = 'exhaustive enumeration of the ways to provide the same small trajectories, compared with a plain one'
    bounds = ('%d ways to provide the data (formats of files, compression, folders, slices, decorators, caches, types and layouts of the attributes), '
              '%d functions and variants (total, partial, with filters, weights, fixed center of mass), %d kinds of trajectories, in 3 and 2 dimensions; '
              'each computed twice on the same trajectory; all arguments of all functions x up to 10 types of numbers and sequences' % (len(STORES), len(NAMES), len(WORLDS)))
    assumptions = ['files have particles of mass one (atooms overrides the masses in columns)', 'the format keeps the data: steps, time step, cell, species, masses, positions, velocities',
                   'functions of displacements require a constant cell; atooms does not unfold integer positions or systems with views on the positions, nor slice a slice', 'single precision positions: within 1e-5']

    def setup(self):
        self.tmp = scratch_root()
        self.cache = {}
        self.files = {}

    # Files

    def path(self, world, kind):
        key = (repr(sorted(world.spec.items())), getattr(world, 'key', None), kind)
        if key in self.files:
            return self.files[key]
        folder = '%s/%d-%d' % (self.tmp, os.getpid(), len(self.files))
        os.makedirs(folder)
        name = folder + '/trajectory.xyz'
        self.write(world, name, range(world.frames))
        if kind in ('xyz.gz', 'xyz.bz2'):
            with open(name, 'rb') as fh:
                data = fh.read()
            os.remove(name)
            name += kind[3:]
            with (gzip if kind == 'xyz.gz' else bz2).open(name, 'wb') as fh:
                fh.write(data)
        elif kind == 'exyz':
            with open(name, 'w') as fh:
                for f in range(world.frames):
                    side = world.side[f]
                    lattice = ' '.join('%.12g' % (side[i] if i == j else 0.0) for i in range(world.ndim) for j in range(world.ndim))
                    fh.write('%d\nProperties=species:S:1:pos:R:%d:vel:R:%d:mass:R:1 Lattice="%s" Timestep=%.12g Step=%d\n' %
                             (len(world.species[f]), world.ndim, world.ndim, lattice, world.timestep, world.steps[f]))
                    for i in range(len(world.species[f])):
                        fh.write(' '.join([world.species[f][i]] + ['%.12f' % x for x in list(world.pos[f][i]) + list(world.vel[f][i])] +
                                          ['%g' % world.mass[world.index[f][i]]]) + '\n')
        elif kind == 'folder':
            os.remove(name)
            name = folder + '/frames'
            os.makedirs(name)
            for f in range(world.frames):
                self.write(world, '%s/%09d' % (name, world.steps[f]), [f])
        elif kind == 'pieces':
            name = []
            cuts = [0, 1, world.frames // 2 + 1, world.frames]
            for n in range(len(cuts) - 1):
                name.append('%s/piece%d.xyz' % (folder, n))
                self.write(world, name[-1], range(cuts[n], cuts[n + 1]))
        self.files[key] = name
        return name

    @staticmethod
    def write(world, name, frames):
        with open(name, 'w') as fh:
            for f in frames:
                fh.write('%d\nstep:%d cell:%s columns:id,pos,vel,mass,charge,radius timestep:%.12g ndim:%d\n' %
                         (len(world.species[f]), world.steps[f], ','.join('%.12g' % x for x in world.side[f]), world.timestep, world.ndim))
                for i in range(len(world.species[f])):
                    orig = world.index[f][i]
                    row = list(world.pos[f][i]) + list(world.vel[f][i]) + [world.mass[orig], world.field[f][orig], world.radius[orig]]
                    fh.write(' '.join([world.species[f][i]] + ['%.12f' % x for x in row]) + '\n')

    # Calculations

    def objects(self, name, world, th):
        """The correlation functions"""
        from atooms.postprocessing.helpers import filter_species
        from atooms.postprocessing.partial import Partial
        from atooms.postprocessing.sacf import StressAutocorrelation
        base, _, variant = name.partition('-')
        given = th
        if variant == 'wtraj':
            # The trajectory only provides the weight
            th = world.trajectory()
            th.steps, th.timestep = list(given.steps), given.timestep
        tgrid = [(s - world.steps[0]) * world.timestep for s in world.steps]
        if base == 'sacf':
            cls, args, kwargs = StressAutocorrelation, (tgrid, ), {}
        else:
            cls = build.cls(base)
            radius = self.path(world, 'xyz') if base == 'ik' else None
            args, kwargs = build.arguments(base, world, tgrid, radius)
        if base in build.FOURIER_TIME:
            kwargs['normalize'] = False
        if base in ('gr', 'grlegacy'):
            kwargs['dr'] = 0.263
        if base in ('qst', 'chi4', 'chi4opt', 's4kt', 'qt'):
            kwargs['a'] = 0.8
        if base == 'ba':
            kwargs['rcut'] = [[2.6, 2.1], [2.1, 2.3]]
        if variant == 'default':
            kwargs.pop('tgrid')
        if variant == 'shells':
            kwargs.update(kgrid=None, kmin=-1, kmax=4.0, ksamples=3)
        if variant == 'cutoffs':
            kwargs['rcut'] = None
        if variant == 'cm':
            kwargs['fix_cm'] = True
        if variant == 'linked':
            kwargs['rmax'] = 1.21
        out = [cls(th, *args, **kwargs)]
        if variant == 'weight':
            out[0].add_weight(field='charge')
        elif variant == 'wtraj':
            out[0].add_weight(trajectory=given, field='charge', fluctuations=True)
        elif variant == 'filter':
            out[0].add_filter(filter_species, 'A')
            if out[0].nbodies == 2:
                out[0].add_filter(filter_species, 'B')
        elif base not in ('ik', 'sacf') and world.dumpable('A', 'B'):
            out.append(Partial(cls, ['A', 'B'], out[0].trajectory, *args, **kwargs))
        return out

    def compute(self, name, world, th):
        flat = []
        objects = self.objects(name, world, th)
        for c in objects:
            c.compute()
            for corr in [c.partial[key] for key in sorted(c.partial)] if hasattr(c, 'partial') else [c]:
                grid, value = build.observe(corr)
                if name.split('-')[0] in build.FOURIER_TIME + ['s4kt']:
                    flat += [numpy.array(grid[0]), numpy.array(grid[1])]
                else:
                    flat.append(numpy.array(grid))
                flat.append(numpy.array(value))
                self.calls += 1
        return flat, th if name.endswith('-wtraj') else objects[0].trajectory

    def allowed(self, name, key, store, ndim):
        base, _, variant = name.partition('-')
        if base in build.ONLY_3D and ndim != 3:
            return False
        if (base in build.TIME or base in ('sacf', 'ik')) and key in ('osc', 'swap'):
            return False
        if store in ('viewed', 'ram-viewed', 'integer') and (variant == 'cm' or base in UNFOLDED):
            return False
        if store == 'exyz' and ndim != 3:
            return False
        if variant in ('weight', 'wtraj') and store in NO_FIELD:
            return False
        if base == 'sacf' and store in FILES:
            return False
        if variant == 'wtraj' and store in ('tuple-steps', 'path'):
            return False
        if store in ('second', 'third-of-longer', 'sliced-file', 'sliced-cached') and key == 'swap':
            return False
        if variant == 'cutoffs' and store == 'integer':
            return False
        if store == 'cell-integer' and key not in ('cubic', 'blocks', 'swap'):
            return False
        if store.startswith('given') and (base not in UNFOLDED or key in ('osc', 'swap', 'images')):
            return False
        return True

    def cases(self):
        for ndim in (3, 2):
            for key, spec in WORLDS.items():
                for store in STORES:
                    for name in NAMES:
                        for seed in range(4 if self.thorough else 1):
                            if self.allowed(name, key, store, ndim):
                                yield {'name': name, 'store': store, 'world': dict(spec, ndim=ndim, seed=seed)}

        for ndim in (3, 2):
            for steps in ('lin1', 'log3'):
                for name in ARGUMENTS:
                    if name in build.ONLY_3D and ndim != 3:
                        continue
                    for n, args in enumerate(ARGUMENTS[name]):
                        for key, x in args + ([('norigins', 2)] if name != 'sacf' else []):
                            for kind in types(key, x):
                                yield {'name': name, 'arguments': n, 'key': key, 'type': kind, 'world': {'ndim': ndim, 'steps': steps}}

    def arguments(self, case):
        """The types of the arguments do not matter"""
        from atooms.postprocessing.partial import Partial
        from atooms.postprocessing.sacf import StressAutocorrelation
        name = case['name']
        world = World(dict({'frames': 6, 'layout': 'AABABBAB', 'amp': 0.1, 'stress': True, 'L': 2 * numpy.pi}, **case['world']))
        cls = StressAutocorrelation if name == 'sacf' else build.cls(name)
        first = (self.path(world, 'xyz'), ) if name == 'ik' else ()
        full = ARGUMENTS[name][case['arguments']] + ([('norigins', 2)] if name != 'sacf' else [])
        plain = {key: (x if key in COUNTS else exact(x)) for key, x in full}
        x = types(case['key'], dict(full)[case['key']])[case['type']]
        before = copy.deepcopy(x)
        results = []
        for kwargs in (plain, dict(plain, **{case['key']: x})):
            objects = [cls(world.trajectory(), *first, **kwargs)]
            if name not in ('ik', 'sacf'):
                objects.append(Partial(cls, ['A', 'B'], world.trajectory(), *first, **kwargs))
            results.append([])
            for c in objects:
                c.compute()
                c.compute()
                for corr in [c.partial[key] for key in sorted(c.partial)] if hasattr(c, 'partial') else [c]:
                    grid, value = build.observe(corr)
                    results[-1] += [numpy.array(y, dtype=float) for y in (grid if grid and isinstance(grid[0], list) else [grid])]
                    results[-1].append(numpy.array(value))
                    self.calls += 1
        for a, b in zip(*results):
            if not close(a, b, rtol=1e-6, atol=1e-6):
                raise Violation('%s: %s instead of %s when %s is %r (%s)' % (name, b.tolist(), a.tolist(), case['key'], x, case['type']))
            self.compared += 1
        if len(results[0]) != len(results[1]) or not (type(x) is type(before) and numpy.array_equal(x, before)):
            raise Violation('%s: the argument %s was changed from %r to %r' % (name, case['key'], before, x))
        self.outcome(name, case['type'], [y.round(5).tolist() for y in results[1]])

    def run(self, case):
        if 'arguments' in case:
            self.arguments(case)
            return
        name, store = case['name'], case['store']
        world = World(dict({'frames': 4, 'layout': 'AABABBAB', 'masses': 'one' if store in FILES else 'mixed', 'amp': 0.2, 'stress': True, 'timestep': 0.004}, **case['world']))
        if store == 'integer':
            # Particles on the sites of a lattice
            world.pos = [numpy.rint(x) for x in world.pos]
        elif store == 'integers':
            world.vel = [numpy.rint(3 * x) for x in world.vel]
            world.field = numpy.rint(4 * world.field)
            world.mass, world.radius = numpy.rint(world.mass), numpy.ones_like(world.radius)
            stress = world.stress
            world.stress = lambda frame: numpy.rint(stress(frame))
        elif store == 'given-integer':
            world.unw = [numpy.rint(x) for x in world.unw]
            world.pos = [x - world.side[f] * numpy.rint(x / world.side[f]) for f, x in enumerate(world.unw)]
        self.name = name
        key = name, repr(sorted(world.spec.items())), store in INTEGER and store
        if key not in self.cache:
            self.cache[key] = self.compute(name, world, world.trajectory())[0]
        expected = self.cache[key]
        tol = ROUNDED.get(store, 1e-8)
        th = STORES[store](self, world)
        for n in range(2):
            before = self.stored(th)
            got, th = self.compute(name, world, th)
            if len(got) != len(expected):
                raise Violation('%s: %d results instead of %d from %s' % (name, len(got), len(expected), store))
            for a, b in zip(expected, got):
                if not close(a, b, rtol=tol, atol=tol):
                    raise Violation('%s: %s instead of %s from %s (calculation %d)' % (name, b.tolist(), a.tolist(), store, n + 1))
                self.compared += 1
            if before is not None and self.stored(th) != before:
                raise Violation('%s changed the data stored in memory (%s)' % (name, store))
        self.outcome(name, [x.round(6).tolist() for x in got])

    @staticmethod
    def stored(th):
        """What trajectories in memory contain"""
        if not hasattr(th, '_system') or not isinstance(th._system, list):
            return None
        return [[[list(p.position), list(p.velocity), p.species, p.mass] for p in s.particle] + [list(s.cell.side)] for s in th._system]


FILES = {'xyz', 'xyz-cached', 'path', 'gz', 'bz2', 'exyz', 'foldered', 'super', 'sliced-file', 'sliced-cached', 'rewritten'}
