"""
C25: results transform as they must under changes of units and labels, reversal of time,
order of the frames and replication of the system.

Space: all combinations of units of length, time, mass, velocity and weights over a few values
(powers of two, so that grids are exactly scaled, and units of the kind found in SI files),
multiples and offsets of the steps, all names of the species out of a few, all walks of a
particle over an alphabet of displacements (reversal of time), all orders of the frames and
repetitions of the trajectory (static functions), all replications of the system in {1,2}^d.
The results must be those of the original trajectory, multiplied by the powers of the units,
for the total function and all partial ones, including the quantities extracted from them.
"""
import itertools
import os
import numpy
from mc import build
from mc.build import K1
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from mc.worlds import World, close

# Exponents of units of length (l), time (t), velocity (v), mass (m) and weight (q); d is the dimension
# of the grids and of the values
UNITS = {
    'msd': [{'t': 1}, {'l': 2}],
    'vacf': [{'t': 1}, {'v': 2}],
    'alpha2': [{'t': 1}, {}],
    'qst': [{'t': 1}, {}],
    'qt': [{'t': 1}, {}],
    'chi4': [{'t': 1}, {}],
    'chi4opt': [{'t': 1}, {}],
    'sacf': [{'t': 1}, {'m': 2, 'v': 4, 'l': 'd'}],
    'fskt': [{'l': -1}, {'t': 1}, {}],
    'fsktlegacy': [{'l': -1}, {'t': 1}, {}],
    'fkt': [{'l': -1}, {'t': 1}, {}],
    's4kt': [{'t': 1}, {'l': -1}, {}],
    'gr': [{'l': 1}, {}],
    'grlegacy': [{'l': 1}, {}],
    'sk': [{'l': -1}, {}],
    'skfast': [{'l': -1}, {}],
    'ik': [{'l': -1}, {'l': 3}],
    'ba': [{}, {}],
}
ANALYSIS = {
    'diffusive time tau_D': {'t': 1},
    'diffusion coefficient D': {'l': 2, 't': -1},
    'tau': {'t': 1},
    't_star': {'t': 1},
    'a2_star': {},
    'peak time tau_star': {'t': 1},
    'peak height chi4_star': {},
    'relaxation times tau': {'t': 1},
}
VARIANTS = ['msd-cm', 'fskt-cm', 'fkt-cm', 'gr-linked', 'sk-weight', 'msd-default', 'vacf-default', 'alpha2-default', 'msd-rmax',
            'sk-range', 'fskt-range', 'fkt-norm', 'fskt-norm', 'sk-user', 'fskt-user']
NAMES = list(UNITS) + VARIANTS
EXACT = ['msd-default', 'vacf-default', 'alpha2-default', 'msd-rmax']
WORLDS = {
    'cubic': {},
    'ortho': {'cell': 'ortho'},
    'osc': {'cell': 'osc'},
    'blocks': {'steps': 'log3'},
    'images': {'images': 3},
    'corner': {'origin': 'corner', 'cell': 'ortho'},
    'unfolded': {'unfolded_attr': True, 'cell': 'ortho'},
    'gc': {'nvar': 'gc', 'layout': 'ABABABAB'},
    'swap': {'nvar': 'swap'},
}
LENGTHS = [1.0, 2.0**-33, 2.0**-3, 2.0**20, 3.405e-10]
TIMES = [1.0, 2.0**-40, 2.0**12, 2.1e-12]
MASSES = [1.0, 2.0**-87]
CHARGES = [1.0, 2.0**-62]
LABELS = [('A', 'B'), ('B', 'A'), ('Zr', 'Cu'), ('1', '2'), ('2', '1'), ('0', '1'), ('a', 'A'), ('Na+', 'Cl-')]


def copied(world):
    new = World(world.spec)
    for attr in ('pos', 'unw', 'vel', 'side', 'species', 'index', 'field'):
        setattr(new, attr, [x.copy() for x in getattr(world, attr)])
    new.mass, new.radius = world.mass.copy(), world.radius.copy()
    new.steps, new.timestep = list(world.steps), world.timestep
    new.stress_unit = 1.0
    if world.spec['stress']:
        tensors = [World.stress(world, f) for f in range(world.frames)]
        new.stress = lambda f: tensors[f] * new.stress_unit
    return new


def in_units(world, l=1.0, t=1.0, v=1.0, m=1.0, q=1.0, n=1, offset=0):
    """The same trajectory expressed in other units; `n` and `offset` concern the steps"""
    new = copied(world)
    for f in range(world.frames):
        new.pos[f] *= l
        new.unw[f] *= l
        new.vel[f] *= v
        new.side[f] *= l
        new.field[f] *= q
    new.mass, new.radius = new.mass * m, new.radius * l
    new.timestep = world.timestep * t / n
    new.steps = [s * n + offset for s in world.steps]
    new.stress_unit = m * v**2
    return new


def labelled(world, names):
    new = copied(world)
    new.species = [[names[x] for x in s] for s in world.species]
    return new


def reordered(world, frames):
    """The given frames of the original trajectory, at the steps of the first ones"""
    new = copied(world)
    new.frames = len(frames)
    for attr in ('pos', 'unw', 'vel', 'side', 'species', 'index', 'field'):
        x = getattr(world, attr)
        setattr(new, attr, [x[f].copy() for f in frames])
    if world.spec['stress']:
        tensors = [World.stress(world, f) for f in frames]
        new.stress = lambda f: tensors[f]
    delta = world.steps[1] - world.steps[0]
    new.steps = [world.steps[0] + delta * i for i in range(len(frames))]
    return new


def replicated(world, n):
    """Copies of the system along each axis"""
    new = copied(world)
    total = int(numpy.prod(n))
    for f in range(world.frames):
        side = world.side[f]
        shifts = [numpy.array(s) * side for s in itertools.product(*[range(x) for x in n])]
        new.unw[f] = numpy.concatenate([world.unw[f] + s for s in shifts])
        new.pos[f] = new.unw[f] - numpy.rint(new.unw[f] / (side * n)) * side * n
        new.vel[f] = numpy.concatenate([world.vel[f]] * total)
        new.species[f] = list(world.species[f]) * total
        new.index[f] = list(world.index[f]) * total
        new.side[f] = side * numpy.array(n)
    new.stress_unit = total
    return new


class Check(Base):

    pid = 'C25'
    technique = ('exhaustive enumeration of bounded sets of transformations of small trajectories (units, labels, reversal of time, '
                 'orders of the frames, replications), compared with the untransformed one')
    bounds = ('units: all combinations of %d lengths, %d times, 2 masses, 2 weights, steps multiplied and shifted; %d pairs of labels; '
              'all walks of 3 (thorough: 4) steps over 4 displacements; all orders of 4 (thorough: 5) frames and up to 3 repetitions; all replications '
              'in {1,2}^d; %d functions and variants, %d kinds of trajectories' %
              (len(LENGTHS), len(TIMES), len(LABELS), len(NAMES), len(WORLDS)))
    assumptions = ['parameters (cut-offs, bins, grids) are expressed in the same units as the trajectory',
                   'logarithmic default time grids are relative to the unit of time by definition, and are not considered',
                   'reversal of time: linear time grids, total functions, not S4(k,t), which refers to the positions at the origin of time', 'positions do not fall on bins edges or thresholds']

    def setup(self):
        self.tmp = scratch_root()
        self.cache = {}

    # Calculations

    def arguments(self, name, world, unit):
        """Positional and keyword arguments in the given units"""
        base, _, variant = name.partition('-')
        l, t = unit.get('l', 1.0), unit.get('t', 1.0)
        tgrid = [(s - world.steps[0]) * world.timestep for s in world.steps]
        kgrid = [K1 / l, 1.42 * K1 / l]
        k = {'nk': 1000, 'dk': 0.1 / l}
        args = ()
        if base in ('qst', 'qt', 'chi4', 'chi4opt'):
            kwargs = {'tgrid': tgrid, 'a': 0.8 * l}
        elif base in ('msd', 'vacf', 'alpha2', 'sacf'):
            kwargs = {'tgrid': tgrid}
        elif base in build.FOURIER_TIME:
            kwargs = dict(k, kgrid=kgrid, tgrid=tgrid, normalize=False)
        elif base == 's4kt':
            kwargs = dict(k, kgrid=kgrid, tgrid=tgrid, a=0.8 * l)
        elif base in ('gr', 'grlegacy'):
            kwargs = {'dr': 0.263 * l}
        elif base in ('sk', 'skfast'):
            kwargs = dict(k, kgrid=kgrid)
        elif base == 'ik':
            kwargs = dict(k, kgrid=kgrid)
            path = '%s/radius-%s.xyz' % (self.tmp, os.getpid())
            with open(path, 'w') as fh:
                for f in range(world.frames):
                    fh.write('%d\nstep:%d cell:%s columns:id,pos,radius ndim:3\n' %
                             (len(world.species[f]), world.steps[f], ','.join('%.17g' % x for x in world.side[f])))
                    for i, x in enumerate(world.pos[f]):
                        fh.write('A %s %.17g\n' % (' '.join('%.17g' % y for y in x), world.radius[world.index[f][i]]))
            args = (path,)
        elif base == 'ba':
            kinds = sorted({x for s in world.species for x in s})
            kwargs = {'dtheta': 10.0, 'rcut': [[2.57 * l] * len(kinds) for _ in kinds]}
        if variant == 'cm':
            kwargs['fix_cm'] = True
        elif variant == 'linked':
            kwargs['rmax'] = 1.21 * l
        elif variant == 'default':
            kwargs.pop('tgrid')
        elif variant == 'rmax':
            kwargs.pop('tgrid')
            kwargs['rmax'] = 1.3 * l
        elif variant == 'range':
            kwargs.pop('kgrid')
            kwargs.update(kmin=1.01 * K1 / l, kmax=2.2 * K1 / l, ksamples=3, dk=0.15 / l)
        elif variant == 'norm':
            kwargs['normalize'] = True
        if base == 'msd':
            kwargs['sigma'] = 1.1 * l
        return args, kwargs

    def compute(self, name, world, unit=None, partial=True, names=None):
        """Total and partial results: {label: (arrays, analysis)}"""
        from atooms.postprocessing.partial import Partial
        from atooms.postprocessing.sacf import StressAutocorrelation
        base, _, variant = name.partition('-')
        cls = StressAutocorrelation if base == 'sacf' else build.cls(base)
        args, kwargs = self.arguments(name, world, unit or {})
        species = [names[x] for x in names] if names else sorted({x for s in world.species for x in s})
        if base == 'sacf':
            args = (kwargs.pop('tgrid'),)
        out = {}
        corr = cls(world.trajectory(), *args, **kwargs)
        if variant == 'weight':
            corr.add_weight(field='charge')
        if variant == 'user':
            self.user_vectors(corr, world)
        corr.compute()
        out['total'] = corr
        if partial and len(species) > 1 and base not in ('ik', 'sacf') and variant != 'weight' and self.dumpable(world, species):
            p = Partial(cls, species, world.trajectory(), *args, **kwargs)
            if variant == 'user':
                for c in p.partial.values():
                    self.user_vectors(c, world)
            p.compute()
            back = {names[x]: x for x in names} if names else {x: x for x in species}
            for key in p.partial:
                label = tuple(back[x] for x in key) if isinstance(key, tuple) else back[key]
                out[label] = p.partial[key]
        self.calls += len(out)
        flat = {}
        for label, c in out.items():
            grid, value = build.observe(c)
            grids = [numpy.array(g) for g in grid] if base in build.FOURIER_TIME + ['s4kt'] else [numpy.array(grid)]
            c.analyze()
            analysis = {}
            for key, x in c.analysis.items():
                if key == 'relaxation times tau':
                    for i, y in enumerate(x.values()):
                        analysis[key, i] = y
                elif key in ANALYSIS:
                    analysis[key, 0] = x
            analysis = {key: analysis[key] for key in analysis if analysis[key] is not None}
            flat[label] = (grids + [numpy.array(value)], analysis)
        return flat

    @staticmethod
    def user_vectors(corr, world):
        shells = ([1, 0, 0], [0, -1, 0], [0, 1, 1]), ([2, 1, 0], [-1, 0, 2])
        corr.kvectors = [[numpy.array(n[:world.ndim]) * 2 * numpy.pi / world.side[0] for n in shell] for shell in shells]

    @staticmethod
    def dumpable(world, species):
        # atooms does not dump as many particles as there are dimensions
        return all(s.count(x) != world.ndim for s in world.species for x in species)

    def reference(self, name, world, partial=True):
        key = (name, repr(sorted(world.spec.items())), partial)
        if key not in self.cache:
            if len(self.cache) > 50:
                self.cache.clear()
            self.cache[key] = self.compute(name, world, partial=partial)
        return self.cache[key]

    def same(self, name, world, new, what, unit=None, factor=1.0, partial=True, names=None, grids=True):
        unit = unit or {}
        expected = self.reference(name, world, partial)
        got = self.compute(name, new, unit, partial, names)
        if set(expected) != set(got):
            raise Violation('%s: results for %s instead of %s with %s' % (name, sorted(got, key=str), sorted(expected, key=str), what))

        def scale(powers):
            x = 1.0
            for u, n in powers.items():
                x *= unit.get(u, 1.0)**(-world.ndim if n == 'd' else n)
            return x

        units = UNITS[name.split('-')[0]]
        if name == 'sk-weight':
            units = [units[0], {'q': 2}]
        for label in expected:
            arrays, analysis = expected[label]
            for i, (a, b) in enumerate(zip(arrays, got[label][0])):
                last = i == len(arrays) - 1
                b = b / scale(units[i]) / (factor if last else 1.0)
                if not (grids or last):
                    continue
                if not close(a, b, rtol=1e-7, atol=1e-8):
                    raise Violation('%s (%s) changes from %s to %s (in the original units) with %s' %
                                    (name, label, a.tolist(), b.tolist(), what))
            if factor != 1.0:
                # There may be several maxima of the same height
                continue
            if set(analysis) != set(got[label][1]):
                raise Violation('%s (%s): extracted quantities %s instead of %s with %s' %
                                (name, label, sorted(got[label][1]), sorted(analysis), what))
            for key, x in analysis.items():
                y = got[label][1][key] / scale(ANALYSIS[key[0]])
                # Differences of small numbers
                if not close([x], [y], rtol=1e-5, atol=1e-6):
                    raise Violation('%s (%s): %s changes from %s to %s with %s' % (name, label, key[0], x, y, what))
        self.compared += 1
        self.outcome(name, [x.round(6).tolist() for arrays, _ in expected.values() for x in arrays])

    # Space

    def allowed(self, name, key, ndim):
        base, _, variant = name.partition('-')
        if base in build.ONLY_3D and ndim != 3:
            return False
        if (base in build.TIME or base in ('sacf', 'ik')) and key in ('osc', 'gc', 'swap'):
            return False
        if variant == 'default' and key == 'blocks' or variant == 'user' and key == 'osc':
            return False
        return True

    def world(self, spec):
        spec = dict(spec)
        spec.setdefault('layout', 'ABBAABAB')
        return World(dict({'frames': 5, 'masses': 'mixed', 'amp': 0.2, 'stress': True}, **spec))

    def cases(self):
        for ndim in (3, 2):
            for name in NAMES:
                base = name.split('-')[0]
                for seed, (key, spec) in itertools.product(range(3 if self.thorough else 1), WORLDS.items()):
                    if not self.allowed(name, key, ndim):
                        continue
                    spec = dict(spec, ndim=ndim, frames=6 if key == 'blocks' else 4, seed=seed)
                    for l in LENGTHS:
                        yield {'kind': 'units', 'name': name, 'world': spec, 'l': l}
                    for pair in range(len(LABELS)):
                        yield {'kind': 'labels', 'name': name, 'world': spec, 'pair': pair}
                if base in build.STATIC and self.allowed(name, 'cubic', ndim):
                    for key in ('cubic', 'ortho', 'swap', 'gc', 'unfolded'):
                        if not self.allowed(name, key, ndim):
                            continue
                        for first in range(5 if self.thorough else 4):
                            yield {'kind': 'orders', 'name': name, 'first': first,
                                   'world': dict(WORLDS[key], ndim=ndim, frames=5 if self.thorough else 4)}
                        yield {'kind': 'repeated', 'name': name, 'world': dict(WORLDS[key], ndim=ndim, frames=3)}
                elif self.allowed(name, 'cubic', ndim) and name not in EXACT + ['s4kt']:
                    for head in range(4):
                        for cell in ('cubic', 'ortho'):
                            yield {'kind': 'reversal', 'name': name, 'head': head, 'world': {'ndim': ndim, 'cell': cell}}
                if base in ('msd', 'vacf', 'alpha2', 'qst', 'chi4', 'chi4opt', 'sacf'):
                    for key in ('cubic', 'ortho', 'blocks', 'images', 'unfolded'):
                        if self.allowed(name, key, ndim):
                            yield {'kind': 'replicas', 'name': name, 'world': dict(WORLDS[key], ndim=ndim, frames=6 if key == 'blocks' else 4)}

    def run(self, case):
        getattr(self, case['kind'])(case)

    def units(self, case):
        name = case['name']
        world = self.world(case['world'])
        base = name.split('-')[0]
        for t in TIMES:
            if name in EXACT and not (is_power(t) and is_power(case['l'])):
                continue
            heavy = base in build.FOURIER_TIME + ['s4kt', 'ik']
            for m in MASSES if base in ('sacf', 'ba') or 'cm' in name else MASSES[-1:]:
                for q in CHARGES if 'weight' in name else CHARGES[:1]:
                    for n, offset in ((1, 0), (3, 0), (1, 48), (1000, 3 * 10**9)):
                        if base in build.STATIC and n == 1000 and t != 1.0:
                            continue
                        if heavy and not self.thorough and (n, offset) != ((1, 0), (3, 0), (1, 48), (1000, 3 * 10**9))[TIMES.index(t)]:
                            continue
                        v = case['l'] / t
                        unit = {'l': case['l'], 't': t, 'v': v, 'm': m, 'q': q}
                        if n != 1 and name in EXACT:
                            continue
                        self.same(name, world, in_units(world, n=n, offset=offset, **unit),
                                  'units %s, steps multiplied by %d and shifted by %d' % (unit, n, offset), unit)

    def labels(self, case):
        world = self.world(case['world'])
        names = dict(zip('AB', LABELS[case['pair']]))
        new = labelled(world, names)
        self.same(case['name'], world, new, 'species %s' % names, names=names)

    def reversal(self, case):
        name = case['name']
        ndim = case['world']['ndim']
        steps = ([0.0, 0.0, 0.0], [0.21, 0.03, -0.07], [-0.17, 0.35, 0.0], [0.08, -0.29, 0.43])
        other = ([0.1, -0.2, 0.05], [-0.3, 0.04, 0.2])
        for tail in itertools.product(range(4), repeat=3 if self.thorough else 2):
            walk = [[list(s[:ndim])] + [list(x[:ndim]) for x in other] * (2 if ndim == 2 else 1) + [[0.02 * k] * ndim]
                    for k, s in enumerate([steps[i] for i in (case['head'],) + tail])]
            world = self.world(dict(case['world'], layout='AAAAAA'[:len(walk[0])], frames=len(walk) + 1, walk=walk))
            new = reordered(world, list(reversed(range(world.frames))))
            # Velocities change sign
            new.vel = [-x for x in new.vel]
            self.same(name, world, new, 'time reversed, walk %s' % walk, partial=False)

    def orders(self, case):
        world = self.world(case['world'])
        frames = list(range(world.frames))
        for tail in itertools.permutations([f for f in frames if f != case['first']]):
            order = [case['first']] + list(tail)
            self.same(case['name'], world, reordered(world, order), 'frames in order %s' % order)

    def repeated(self, case):
        world = self.world(case['world'])
        frames = list(range(world.frames))
        for n in (2, 3):
            self.same(case['name'], world, reordered(world, frames * n), 'trajectory repeated %d times' % n)
            self.same(case['name'], world, reordered(world, sorted(frames * n)), 'frames repeated %d times' % n)

    def replicas(self, case):
        name = case['name']
        world = self.world(case['world'])
        for n in itertools.product((1, 2), repeat=world.ndim):
            total = int(numpy.prod(n))
            # The variance of an extensive quantity, or its square, is divided by N or the volume
            factor = {'chi4': total, 'chi4opt': total, 'sacf': total}.get(name.split('-')[0], 1.0)
            self.same(name, world, replicated(world, n), 'system replicated %s times' % (n,), factor=factor)


def is_power(x):
    return numpy.log2(x) == round(numpy.log2(x))
