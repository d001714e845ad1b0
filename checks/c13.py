"""
C13: a calculation does not disturb its inputs nor later calculations.

Space: all sequences of operations (bounded length) over an alphabet of
calculations which share a trajectory object, the lists of arguments, a filter and
a second trajectory with weights, in variants of the trajectory (cached or not,
unfolded positions stored or not, callbacks, sampling), executed one after the other or interleaved
(all objects are built first, and computed in either order).  Each calculation must
give what it gives alone on fresh objects, and the reachable states of what is
shared are enumerated: a calculation must leave it in its initial state.
"""
import copy
import gc
import itertools
import os
import pickle
import random
import traceback
import warnings
import numpy
from mc.build import K1
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from mc.worlds import World

VARIANTS = {
    'plain': {},
    'cached': {'cache': True},
    'unfolded': {'unfolded_attr': True},
    'unfolded-cached': {'unfolded_attr': True, 'cache': True},
    'callback-cached': {'callback': True, 'cache': True},
    'blocks': {'steps': 'log3', 'frames': 6},
    'corner': {'origin': 'corner', 'images': 1},
    'cell': {'cell': 'osc'},
    'open-cached': {'periodic': False, 'cache': True},
}


def pick(system, what):
    s = copy.copy(system)
    s.particle = [p for p in system.particle if p.species == what]
    return s


# Ways to look at the same file: as a whole, at some of its frames, and once it is written anew
FILE = dict(layout='AABABBABAB', frames=7, masses='mixed', timestep=0.0004)
ANEW = dict(layout='ABBABAAAB', frames=5, masses='mixed', seed=11, L=5.5, timestep=0.0003, steps=[0, 14, 28, 42, 56])
VIEWS = {'file': None, 'even': slice(0, None, 2), 'tail': slice(2, None, 1), 'anew': None}


class View:

    """The trajectory in a file, as users would share it (see Shared)"""

    def __init__(self, path, view, base=None):
        from atooms.trajectory import Sliced, TrajectoryXYZ
        self.path = path
        if base is None:
            base = TrajectoryXYZ(path), TrajectoryXYZ(path)
        self.base = base
        self.th, self.other = base
        if VIEWS[view] is not None:
            self.th, self.other = [Sliced(th, VIEWS[view]) for th in base]
        # The same requests for all of them
        self.lists = {
            'tgrid': [0.0, 0.004, 0.008, 0.012], 'late': [0.004, 0.012], 'kgrid': [1.5 * K1, K1], 'negative': [-1.0, 1.5 * K1],
            'rgrid': [0.1 + 0.2 * i for i in range(10)], 'rcut': [[2.6, 2.2], [2.2, 2.4]], 'species': ['B', 'A'],
            'kvectors': [[[K1, 0.0, 0.0], [0.0, -K1, 0.0]], [[K1, K1, 2 * K1]]],
        }
        self.arrays = {'kgrid_array': numpy.array([1.5 * K1, K1]), 'tgrid_array': numpy.array([0.0, 0.004, 0.012])}


def result(op, shared):
    """What is observed when the calculation is carried out"""
    try:
        c = operations()[op](shared)
        c.compute()
        if hasattr(c, 'analyze'):
            c.analyze()
        return observe(c)
    except Exception as exc:
        return ('failed', type(exc).__name__)


def stretch(system):
    """A user callback (it does not modify the particles it is given)"""
    s = copy.copy(system)
    s.particle = [copy.copy(p) for p in system.particle]
    for p in s.particle:
        p.velocity = p.velocity * 2.0
    return s


class Shared:

    """What a user would share between calculations"""

    def __init__(self, world, variant, path):
        self.world = world
        self.th = world.trajectory(cache=variant.get('cache', False))
        if variant.get('callback'):
            self.th.add_callback(stretch)
        other = World(dict(world.spec, seed=5))
        self.other = other.trajectory(cache=variant.get('cache', False))
        total = world.total_time()
        self.lists = {
            'tgrid': [0.0, total * 0.3, total * 0.55, total],
            'late': [total * 0.3, total],
            'kgrid': [1.5 * K1, K1],
            'negative': [-1.0, 1.5 * K1],
            'rgrid': [0.1 + 0.2 * i for i in range(10)],
            'rcut': [[2.6, 2.2], [2.2, 2.4]],
            'species': ['B', 'A'],
            'kvectors': [[[K1, 0.0, 0.0], [0.0, -K1, 0.0]], [[K1, K1, 2 * K1]]],
        }
        self.arrays = {'kgrid_array': numpy.array([1.5 * K1, K1]), 'tgrid_array': numpy.array([0.0, total * 0.3, total])}
        self.path = path

    def digest(self):
        """Everything observable about the shared objects, and the global state"""
        import atooms.postprocessing as pp
        from atooms.postprocessing import core
        out = {}
        for name, th in (('trajectory', self.th), ('weight trajectory', self.other)):
            cbk = [(c.__name__, repr(a)) for c, a, k in th.callbacks]
            out[name + ' callbacks'] = cbk
            out[name + ' attributes'] = (th.cache, list(th.steps), th.timestep, th.block_size, th.filename)
            # Without callbacks, on top of the cached particles
            callbacks, th.callbacks = th.callbacks, []
            frames = []
            for f in range(len(th)):
                s = th.read(f)
                for p in s.particle:
                    row = []
                    for key in sorted(p.__dict__):
                        x = getattr(p, key)
                        row.append((key, x.tolist() if isinstance(x, numpy.ndarray) else x))
                    frames.append(repr(row))
                frames.append(repr((s.cell.side.tolist(), s.cell.periodic.tolist(), sorted(x for x in s.__dict__ if x != 'frame'))))
            th.callbacks = callbacks
            out[name + ' frames'] = frames
        out['lists'] = copy.deepcopy(self.lists)
        out['arrays'] = {k: v.tolist() for k, v in self.arrays.items()}
        out['random'] = random.getstate()
        out['numpy.random'] = numpy.random.get_state()[1].tobytes(), numpy.random.get_state()[2:]
        out['numpy'] = (numpy.geterr(), numpy.get_printoptions())
        out['globals'] = (core.pp_output_path, core.pp_trajectory_format)
        out['environ'] = dict(os.environ)
        out['cwd'] = os.getcwd()
        classes = {}
        for name in sorted(dir(pp)):
            c = getattr(pp, name)
            if isinstance(c, type):
                classes[name] = {k: repr(v) for k, v in vars(c).items()
                                 if isinstance(v, (list, tuple, dict, str, int, float, bool, type(None))) and not k.startswith('__')}
        out['classes'] = classes
        return out


def operations():
    """name -> function(shared) returning an object with compute()"""
    import atooms.postprocessing as pp
    from atooms.postprocessing.partial import Partial
    from atooms.postprocessing.filter import Filter
    from atooms.postprocessing.s4kt import S4ktOverlap
    from atooms.postprocessing.susceptibility import Susceptibility

    def filtered(c, *cbk):
        for what in cbk:
            c.add_filter(pick, what)
        return c

    def weighted(c, **kwargs):
        c.add_weight(**kwargs)
        return c

    def vectors(c, kvectors):
        c.kvectors = kvectors
        return c

    k = {'nk': 2, 'dk': 0.1}
    return {
        'msd': lambda s: pp.MeanSquareDisplacement(s.th, s.lists['tgrid']),
        'msd-default': lambda s: pp.MeanSquareDisplacement(s.th),
        'msd-cm': lambda s: pp.MeanSquareDisplacement(s.th, s.lists['tgrid'], fix_cm=True),
        'msd-A-cm': lambda s: filtered(pp.MeanSquareDisplacement(s.th, s.lists['tgrid'], fix_cm=True), 'A'),
        'msd-partial': lambda s: Partial(pp.MeanSquareDisplacement, s.lists['species'], s.th, s.lists['tgrid']),
        'vacf': lambda s: pp.VelocityAutocorrelation(s.th, s.lists['tgrid']),
        'alpha2': lambda s: pp.NonGaussianParameter(s.th, s.lists['late']),
        'qst': lambda s: pp.SelfOverlap(s.th, s.arrays['tgrid_array'], a=1.0),
        'qt': lambda s: pp.CollectiveOverlap(s.th, s.lists['tgrid'], a=1.0),
        'chi4': lambda s: pp.Chi4SelfOverlap(s.th, s.lists['tgrid'], a=1.0),
        'chi4-opt-partial': lambda s: Partial(pp.Chi4SelfOverlapOptimized, s.lists['species'], s.th, s.lists['tgrid'], a=1.0),
        'susceptibility': lambda s: Susceptibility(pp.SelfOverlap, s.th, -1, tgrid=s.lists['tgrid'][:2], a=1.0),
        'fskt': lambda s: pp.SelfIntermediateScatteringFast(s.th, s.lists['kgrid'], s.lists['late'], **k),
        'fskt-array': lambda s: pp.SelfIntermediateScatteringFast(s.th, s.arrays['kgrid_array'], s.lists['tgrid'], **k),
        'fskt-legacy-cm': lambda s: pp.SelfIntermediateScatteringLegacy(s.th, s.lists['negative'], s.lists['late'], fix_cm=True, **k),
        'fkt-partial': lambda s: Partial(pp.IntermediateScattering, s.lists['species'], s.th, s.lists['kgrid'], s.lists['late'], **k),
        'fkt-cm': lambda s: pp.IntermediateScattering(s.th, s.lists['negative'], s.lists['tgrid'], fix_cm=True, **k),
        's4kt': lambda s: S4ktOverlap(s.th, s.lists['tgrid'], s.lists['kgrid'], a=1.0, **k),
        'gr': lambda s: pp.RadialDistributionFunction(s.th, dr=0.3),
        'gr-grid': lambda s: pp.RadialDistributionFunctionLegacy(s.th, s.lists['rgrid']),
        'gr-fast-grid-partial': lambda s: Partial(pp.RadialDistributionFunctionFast, s.lists['species'], s.th, s.lists['rgrid']),
        'gr-open': lambda s: pp.RadialDistributionFunctionFast(s.th, dr=0.3, rmax=1.9),
        'sk': lambda s: pp.StructureFactorLegacy(s.th, s.lists['kgrid'], **k),
        'sk-fast-partial': lambda s: Partial(pp.StructureFactorFast, s.lists['species'], s.th, s.lists['negative'], **k),
        'sk-weight': lambda s: weighted(pp.StructureFactorLegacy(s.th, s.lists['kgrid'], **k), field='charge', fluctuations=True),
        'sk-other-weight': lambda s: weighted(pp.StructureFactorLegacy(s.th, s.lists['kgrid'], **k), trajectory=s.other, field='charge'),
        'sk-vectors': lambda s: vectors(pp.StructureFactorLegacy(s.th), s.lists['kvectors']),
        'sk-filter': lambda s: Filter(pp.StructureFactorLegacy(s.th, s.lists['kgrid'], **k), 'mass > 1.2, species == "B"'),
        'ik': lambda s: pp.SpectralDensity(s.th, s.path, s.lists['kgrid'], **k),
        'ba': lambda s: Filter(pp.BondAngleDistribution(s.th, dtheta=20.0, rcut=s.lists['rcut']), 'species == "A"'),
        'ba-default': lambda s: pp.BondAngleDistribution(s.th, dtheta=20.0),
    }


ORDER = ['msd', 'msd-default', 'msd-cm', 'msd-A-cm', 'msd-partial', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4-opt-partial',
         'susceptibility', 'fskt', 'fskt-array', 'fskt-legacy-cm', 'fkt-partial', 'fkt-cm', 's4kt', 'gr', 'gr-grid', 'gr-fast-grid-partial', 'gr-open', 'sk',
         'sk-fast-partial', 'sk-weight', 'sk-other-weight', 'sk-vectors', 'sk-filter', 'ik', 'ba', 'ba-default']


def observe(c):
    """Grid, values and analysis"""
    if hasattr(c, 'partial'):
        return {repr(k): observe(c.partial[k]) for k in sorted(c.partial, key=repr)}

    def plain(x):
        if isinstance(x, dict):
            return [(repr(k), plain(x[k])) for k in x]
        if isinstance(x, (list, tuple, numpy.ndarray)):
            return [plain(y) for y in x]
        return float(x) if isinstance(x, (int, float, numpy.number)) else repr(x)
    return plain(c.grid), plain(c.value), plain(getattr(c, 'analysis', {}))


def same(a, b):
    """Equality within rounding (which may depend on the alignment of arrays in memory)"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


class Check(Base):

    pid = 'C13'
    technique = ('explicit-state exploration of histories: all bounded sequences of calculations on shared objects, run on the real '
                 'code; each compared with a run on fresh objects and with the initial state of what is shared')
    bounds = ('all ordered pairs (thorough: triples) of 31 calculations sharing a trajectory and lists of arguments, in 9 variants of the '
              'trajectory; executed one after the other, and with objects built together and computed in either order; all ordered pairs on '
              '4 views of a file (whole, sliced twice, written anew in between), against results of a fresh process')
    assumptions = ['user callbacks do not modify the particles they are given', 'results are compared within 1e-9']

    def setup(self):
        self.tmp = scratch_root()
        self.alone = {}
        # References for the views, each in a process of its own
        self.viewed = {}
        items = [(op, view) for op in ORDER for view in VIEWS]
        for n in range(0, len(items), 8):
            pipes = []
            for op, view in items[n:n + 8]:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        warnings.filterwarnings('ignore')
                        numpy.seterr(all='ignore')
                        path = self.rewrite(os.path.join(self.tmp, 'ref%d' % os.getpid()), ANEW if view == 'anew' else FILE)
                        data = pickle.dumps(result(op, View(path, view)))
                        with os.fdopen(w, 'wb') as fh:
                            fh.write(data)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(1)
                    os._exit(0)
                os.close(w)
                pipes.append((r, pid))
            for key, (r, pid) in zip(items[n:n + 8], pipes):
                with os.fdopen(r, 'rb') as fh:
                    data = fh.read()
                    self.viewed[key] = pickle.loads(data) if data else ("failed", "process")
                os.waitpid(pid, 0)

    @staticmethod
    def rewrite(folder, spec):
        """(Re)write a trajectory file, with the same time stamp"""
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, 'trajectory.xyz')
        World(spec).write_xyz(path)
        os.utime(path, (10**9, 10**9))
        return path

    def cases(self):
        for variant in VARIANTS:
            for a in ORDER:
                for b in ORDER:
                    if self.thorough:
                        for c in ORDER:
                            yield {'variant': variant, 'ops': [a, b, c]}
                    else:
                        yield {'variant': variant, 'ops': [a, b]}

        for a in ORDER:
            for b in ORDER:
                for first, second in itertools.permutations(VIEWS, 2):
                    if a == b or self.thorough or (first, second) in (('file', 'even'), ('tail', 'anew')):
                        yield {'part': 'views', 'ops': [a, b], 'views': [first, second]}

    def run_views(self, case):
        folder = os.path.join(self.tmp, 'views%d' % os.getpid())
        for keep in (True, False):
            base = path = None
            objects = []
            for op, view in zip(case['ops'], case['views']):
                if path is None or 'anew' in case['views']:
                    path = self.rewrite(folder, ANEW if view == 'anew' else FILE)
                    base = None
                shared = View(path, view, base)
                base = shared.base
                got = result(op, shared)
                self.calls += 1
                self.compared += 1
                if keep:
                    objects.append(shared)
                else:
                    # The next objects may take the same places in memory
                    base = shared = None
                    gc.collect()
                if not same(got, self.viewed[op, view]):
                    raise Violation('%s of %s after %s (the first one is %s): %s instead of %s' % (
                        op, view, list(zip(case['ops'], case['views'])), 'kept' if keep else 'dropped', str(got)[:300],
                        str(self.viewed[op, view])[:300]))
        self.outcome(str(got)[:100])

    def fresh(self, variant):
        spec = {k: v for k, v in VARIANTS[variant].items() if k not in ('cache', 'callback')}
        world = World(dict(dict(layout='AABABBABAB', frames=4, masses='mixed'), **spec))
        path = os.path.join(self.tmp, '%s-%d.xyz' % (variant, os.getpid()))
        if not os.path.exists(path):
            world.write_xyz(path)
        return Shared(world, VARIANTS[variant], path)

    def reference(self, variant, op, ops):
        if (variant, op) not in self.alone:
            shared = self.fresh(variant)
            try:
                c = ops[op](shared)
                c.compute()
                if hasattr(c, 'analyze'):
                    c.analyze()
                result = observe(c)
            except Exception as exc:
                result = ('failed', type(exc).__name__)
            self.alone[variant, op] = result
            self.outcome(op, repr(result))
        return self.alone[variant, op]

    def run(self, case):
        if case.get('part') == 'views':
            return self.run_views(case)
        ops = operations()
        variant, names = case['variant'], case['ops']
        expected = [self.reference(variant, n, ops) for n in names]
        if any(e[0] == 'failed' for e in expected if isinstance(e, tuple)):
            # Not a valid calculation (g(r) without a minimum): that has to be the same wherever it is run
            bad = {n for n, e in zip(names, expected) if isinstance(e, tuple) and e[0] == 'failed'}
            if variant == 'open-cached':
                # Most of the functions expect a periodic cell
                if bad & {'msd', 'vacf', 'alpha2', 'qst', 'gr-fast-grid-partial', 'gr-open'}:
                    raise Violation('%s fails on fresh objects' % bad)
                return
            if bad - {'ba-default', 'sk-vectors' if variant == 'cell' else ''}:
                raise Violation('%s fails on fresh objects' % bad)
            return
        for mode in ('sequence', 'together', 'reversed') if len(names) > 2 else ('sequence', 'together'):
            shared = self.fresh(variant)
            before = shared.digest()
            objects = []
            order = range(len(names))
            if mode != 'sequence':
                objects = [ops[n](shared) for n in names]
                self.unchanged(before, shared, 'building %s' % names)
                order = order if mode == 'together' else reversed(order)
            for i in order:
                if mode == 'sequence':
                    objects.append(ops[names[i]](shared))
                c = objects[i]
                c.compute()
                if hasattr(c, 'analyze'):
                    c.analyze()
                self.calls += 1
                if not same(observe(c), expected[i]):
                    raise Violation('%s, run after %s (%s): %s instead of %s' % (
                        names[i], names, mode, str(observe(c))[:300], str(expected[i])[:300]))
                self.unchanged(before, shared, '%s of %s (%s)' % (names[i], names, mode))
            # Results that were obtained earlier did not change either
            for i, c in enumerate(objects):
                if not same(observe(c), expected[i]):
                    raise Violation('the results of %s changed while running %s (%s)' % (names[i], names, mode))
                self.compared += 1

    @staticmethod
    def unchanged(before, shared, what):
        after = shared.digest()
        for key in before:
            if before[key] != after[key]:
                raise Violation('%s changed the %s: %s' % (what, key, Check.difference(before[key], after[key])))

    @staticmethod
    def difference(a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
        if isinstance(a, list) and isinstance(b, list):
            return [(x, y) for x, y in zip(a, b) if x != y][:2] or (len(a), len(b))
        return str((a, b))[:500]
