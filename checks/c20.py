"""
C20: results do not depend on periodic images, origin, orientation of the axes or order
of the particles, and displacements do not depend on the way positions are stored.

Space: all images in {-1,0,1} of all coordinates of a few particles (one frame for
static functions, one of two frames for time functions), all permutations of few
particles (the same in all frames or, for functions which do not follow particles, in
each frame independently), all signed permutations of the axes, a lattice of
translations, and all walks of one particle over an alphabet of displacements up to
almost half the cell.  The results must coincide with those of the untransformed
trajectory, for the total function and all partial ones.
"""
import itertools
import os
import numpy
from mc import build
from mc.build import K1
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from mc.worlds import World, close

NAMES = build.TIME + build.STATIC + ['msd-cm', 'fskt-cm', 'fkt-cm', 'sk-weight', 'gr-linked', 'sacf']
COLLECTIVE = ['gr', 'grlegacy', 'sk', 'skfast', 'ba', 'fkt', 'sk-weight', 'gr-linked', 'sacf']
DISPLACEMENT = ['msd', 'msd-cm', 'alpha2', 'qst', 'chi4', 'chi4opt', 'fskt', 'fsktlegacy', 'fskt-cm', 's4kt']
ONLY_3D = ['ik', 's4kt']

WORLDS = {
    'cubic': {},
    'ortho': {'cell': 'ortho'},
    'osc': {'cell': 'osc'},
    'blocks': {'steps': 'log3'},
    'corner': {'origin': 'corner', 'cell': 'ortho'},
    'long': {'cell': 'long'},
    'unfolded': {'unfolded_attr': True, 'cell': 'ortho'},
    'gc': {'nvar': 'gc', 'layout': 'ABABABAB'},
    'swap': {'nvar': 'swap'},
}


def changed(world, pos=None, order=None, axes=None):
    """A copy of the world, transformed"""
    new = World(world.spec)
    attrs = ('pos', 'unw', 'vel', 'side', 'species', 'index', 'field')
    for attr in attrs:
        setattr(new, attr, [x.copy() for x in getattr(world, attr)])
    new.mass, new.radius = world.mass, world.radius
    if pos is not None:
        for f in range(world.frames):
            new.pos[f], new.unw[f] = pos(f, new.pos[f], new.side[f]), pos(f, new.unw[f], None)
    if order is not None:
        for f in range(world.frames):
            o = list(order(f))
            new.pos[f], new.unw[f], new.vel[f] = new.pos[f][o], new.unw[f][o], new.vel[f][o]
            new.species[f] = [new.species[f][i] for i in o]
            new.index[f] = [new.index[f][i] for i in o]
    if axes is not None:
        perm, sign = list(axes[0]), numpy.array(axes[1], dtype=float)
        for f in range(world.frames):
            for x in (new.pos, new.unw, new.vel):
                x[f] = x[f][:, perm] * sign
            new.side[f] = new.side[f][perm]
        new.stress = lambda f: world.stress(f)[numpy.ix_(perm, perm)] * numpy.outer(sign, sign)
    return new


class Check(Base):

    pid = 'C20'
    technique = 'exhaustive enumeration of a bounded symmetry group acting on small trajectories, compared with the untransformed one'
    bounds = ('images in {-1,0,1} of 6 coordinates (3 particles in 2D, 2 in 3D), all permutations of 5 particles, all signed permutations of '
              'axes, translations on a lattice of 4^d points, all walks of 3 (thorough: 4) steps over 3 displacements per axis; %d functions, '
              '%d kinds of trajectories' % (len(NAMES), len(WORLDS)))
    assumptions = ['functions of displacements require a constant cell', 'collective overlap Q(t) is not periodic by definition',
                   'the weighted S(k) subtracts the density averaged over the wave-vectors of a shell, which depends on the origin',
                   'all the available wave-vectors are used when axes are permuted', 'positions do not fall on bins edges or thresholds']

    def setup(self):
        self.tmp = scratch_root()
        self.cache = {}

    # Calculations

    def compute(self, name, world):
        """All partial and total results as a list of flat arrays"""
        from atooms.postprocessing.partial import Partial
        from atooms.postprocessing.sacf import StressAutocorrelation
        base, _, variant = name.partition('-')
        extra = {}
        if base in build.FOURIER_TIME + ['sk', 'skfast', 'ik', 's4kt']:
            extra['nk'] = 1000
        if base in build.FOURIER_TIME:
            extra['normalize'] = False
        if variant == 'cm':
            extra['fix_cm'] = True
        if variant == 'linked':
            extra['rmax'] = 1.2
        if base in ('qst', 'chi4', 'chi4opt', 's4kt', 'qt'):
            extra['a'] = 0.8
        radius = None
        if base == 'ik':
            radius = world.write_xyz('%s/radius-%s.xyz' % (self.tmp, os.getpid()))
        if base == 'sacf':
            cls, args, kwargs = StressAutocorrelation, ([(s - world.steps[0]) * world.timestep for s in world.steps], ), {}
        else:
            cls = build.cls(base)
            args, kwargs = build.arguments(base, world, None, radius)
        kwargs.update(extra)
        species = sorted({x for s in world.species for x in s})
        out = []
        corr = cls(world.trajectory(), *args, **kwargs)
        if variant == 'weight':
            corr.add_weight(field='charge')
        corr.compute()
        out.append(corr)
        if len(species) > 1 and base not in ('ik', 'sacf') and world.dumpable('A', 'B') and variant != 'weight':
            p = Partial(cls, species, world.trajectory(), *args, **kwargs)
            p.compute()
            out += [p.partial[key] for key in sorted(p.partial)]
        self.calls += len(out)
        flat = []
        for c in out:
            grid, value = build.observe(c)
            if base in build.FOURIER_TIME + ['s4kt']:
                flat += [numpy.array(grid[0]), numpy.array(grid[1])]
            else:
                flat.append(numpy.array(grid))
            flat.append(numpy.array(value))
        return flat

    def reference(self, name, world):
        key = (name, repr(sorted(world.spec.items())))
        if key not in self.cache:
            if len(self.cache) > 50:
                self.cache.clear()
            self.cache[key] = self.compute(name, world)
        return self.cache[key]

    def same(self, name, world, new, what):
        expected = self.reference(name, world)
        got = self.compute(name, new)
        if len(expected) != len(got):
            raise Violation('%s: %d results instead of %d with %s' % (name, len(got), len(expected), what))
        for a, b in zip(expected, got):
            if not close(a, b, rtol=1e-7, atol=1e-8):
                raise Violation('%s changes from %s to %s with %s' % (name, a.tolist(), b.tolist(), what))
        self.compared += 1
        self.outcome(name, [x.round(6).tolist() for x in got])

    def trivial(self, name, world):
        """Whether the reference is empty of information"""
        values = self.reference(name, world)
        return not any(numpy.any(v) for v in values)

    # Space

    def allowed(self, name, key, ndim):
        base = name.split('-')[0]
        if base in ONLY_3D and ndim != 3:
            return False
        if (base in build.TIME or base == 'sacf') and key in ('osc', 'gc', 'swap'):
            return False
        if base == 'ik' and key in ('osc', 'gc', 'swap'):
            return False
        if name == 'gr-linked' and key == 'long':
            return False
        return True

    def world(self, spec):
        spec = dict(spec)
        spec.setdefault('layout', 'ABBAABAB')
        if spec.get('nvar') == 'gc' and 'layout' not in spec:
            spec['layout'] = 'ABABABAB'
        return World(dict({'frames': 3, 'masses': 'mixed', 'amp': 0.2, 'stress': True}, **spec))

    def cases(self):
        for ndim in (3, 2):
            for name in NAMES:
                # Images
                if name != 'qt' and self.allowed(name, 'cubic', ndim):
                    layout = 'AAA' if ndim == 2 else 'AB'
                    base = name.split('-')[0]
                    frames = 1 if base in build.STATIC else 2
                    for frame in range(frames):
                        for cell in ('cubic', 'ortho'):
                            for head in itertools.product((-1, 0, 1), repeat=3):
                                if not self.thorough and cell == 'ortho' and sum(head) % 3 != 0:
                                    continue
                                # gr needs two frames or more particles to be non trivial
                                yield {'kind': 'images', 'name': name, 'frame': frame, 'head': list(head),
                                       'world': {'ndim': ndim, 'layout': layout, 'frames': frames, 'cell': cell, 'start': START[ndim]}}
                for key, spec in WORLDS.items():
                    if not self.allowed(name, key, ndim):
                        continue
                    spec = dict(spec, ndim=ndim)
                    for x in () if name == 'sk-weight' else (SHIFTS if self.thorough or key in ('cubic', 'ortho') else SHIFTS[1:3]):
                        yield {'kind': 'translation', 'name': name, 'world': spec, 'x': x}
                    for perm in itertools.permutations(range(ndim)):
                        yield {'kind': 'axes', 'name': name, 'world': spec, 'perm': list(perm)}
                    if name != 'qt' and key not in ('unfolded',):
                        for n in (1, 2, 5):
                            yield {'kind': 'stored', 'name': name, 'world': spec, 'n': n}
                for key in ('cubic', 'blocks') if self.thorough else ('cubic',):
                    for first in range(5):
                        if self.allowed(name, key, ndim):
                            yield {'kind': 'order', 'name': name, 'first': first,
                                   'world': dict(WORLDS[key], layout='ABBBB', ndim=ndim)}
                            if name in COLLECTIVE:
                                yield {'kind': 'order', 'name': name, 'first': first, 'frame': 1,
                                       'world': dict(WORLDS[key], layout='ABBBB', ndim=ndim)}
                if name in DISPLACEMENT and self.allowed(name, 'cubic', ndim):
                    for head in itertools.product((-0.45, 0.02, 0.31), repeat=ndim):
                        for cell in ('cubic', 'ortho'):
                            yield {'kind': 'walks', 'name': name, 'head': list(head), 'world': {'ndim': ndim, 'cell': cell}}

    def run(self, case):
        getattr(self, case['kind'])(case)

    def images(self, case):
        world = self.world(case['world'])
        n = 6
        for tail in itertools.product((-1, 0, 1), repeat=n - 3):
            image = numpy.array(case['head'] + list(tail)).reshape(len(world.pos[0]), world.ndim)

            def pos(f, x, side):
                return x + image * side if f == case['frame'] and side is not None else x

            if not self.thorough and case['name'] in HEAVY and sum(tail) % 3 != 0:
                continue
            self.same(case['name'], world, changed(world, pos), 'images %s in frame %d' % (image.tolist(), case['frame']))

    def stored(self, case):
        """Images which are different in each frame, for each particle, and larger"""
        world = self.world(case['world'])

        def pos(f, x, side):
            if side is None:
                return x
            image = numpy.array([[(case['n'] * (f + 3 * i + 2 * j) + f * i + j) % (2 * case['n'] + 1) - case['n'] for j in range(world.ndim)]
                                 for i in range(len(x))])
            return x + image * side

        self.same(case['name'], world, changed(world, pos), 'positions stored in different cells')

    def translation(self, case):
        world = self.world(case['world'])
        if self.trivial(case['name'], world):
            raise RuntimeError('no information in %s' % case)
        for rest in itertools.product(SHIFTS, repeat=world.ndim - 1):
            if not self.thorough and sum(SHIFTS.index(x) for x in rest) % 3 != SHIFTS.index(case['x']) % 3:
                continue
            shift = numpy.array([case['x']] + list(rest))
            for fold in (False, True):
                def pos(f, x, side):
                    x = x + shift * world.side[0]
                    if fold and side is not None and case['name'] != 'qt':
                        x = x - numpy.floor(x / side + 0.5) * side
                    return x

                if fold and case['name'] == 'qt':
                    continue
                self.same(case['name'], world, changed(world, pos), 'translation by %s, folded %s' % (shift.tolist(), fold))

    def axes(self, case):
        world = self.world(case['world'])
        for sign in itertools.product((1, -1), repeat=world.ndim):
            if not self.thorough and case['name'] in HEAVY and sign.count(-1) > 1:
                continue
            self.same(case['name'], world, changed(world, axes=(case['perm'], sign)), 'axes %s signs %s' % (case['perm'], sign))

    def order(self, case):
        world = self.world(case['world'])
        ids = list(range(world.N))
        rest = [i for i in ids if i != case['first']]
        for tail in itertools.permutations(rest):
            perm = [case['first']] + list(tail)

            def order(f):
                return perm if case.get('frame', f) == f else ids

            self.same(case['name'], world, changed(world, order=order), 'particles in order %s' % perm)

    def walks(self, case):
        """Folded positions versus unfolded ones provided by the trajectory"""
        ndim = case['world']['ndim']
        steps = list(itertools.product((-0.45, 0.02, 0.31), repeat=ndim))
        other = (0.1, -0.2, 0.05)[:ndim]
        if not self.thorough and ndim == 3:
            steps = [s for i, s in enumerate(steps) if i % 3 == 1]
        for tail in itertools.product(steps, repeat=2):
            walk = [[case['head'], other]] + [[list(s), other] for s in tail]
            # Two particles in 3D, one in 2D (as many as dimensions are not dealt with by atooms)
            if ndim == 2:
                walk = [w[:1] for w in walk]
            world = self.world(dict(case['world'], layout='A' * (ndim - 1), frames=4, walk=walk, start=START[ndim][:ndim-1]))
            new = World(dict(world.spec, unfolded_attr=True))
            self.same(case['name'], world, new, 'unfolded positions, walk %s' % walk)


START = {3: [[0.31, -0.27, 0.443], [-0.112, 0.05, -0.391]], 2: [[0.31, -0.27], [-0.112, 0.371], [0.43, 0.05]]}
SHIFTS = [0.0, 0.5, -0.23, 1.71]
HEAVY = ['ba', 's4kt', 'fkt', 'fkt-cm', 'ik', 'sk', 'skfast', 'sk-weight', 'fskt', 'fsktlegacy', 'fskt-cm']
