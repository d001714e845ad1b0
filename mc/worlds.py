"""
Small closed worlds: fully known trajectories from which both the real code and
the reference models are driven.

A world is described by a JSON-able dictionary (see DEFAULTS).  It knows the
unwrapped paths of the particles, hence the reference models never need to undo
periodic boundary conditions.
"""
import math
import os
import numpy

DEFAULTS = {
    'ndim': 3,
    'layout': 'AAAAA',        # one letter per particle
    'frames': 6,
    'steps': 'lin10',
    'L': 5.0,
    'cell': 'cubic',          # cubic | ortho | var | osc
    'timestep': 1.0,
    'seed': 0,                # which deterministic set of positions
    'amp': 0.22,              # displacement per frame, in units of L
    'images': 0,              # store positions displaced by lattice vectors (up to this many cells)
    'unfolded_attr': False,   # particles carry a `position_unfolded` attribute
    'masses': 'one',          # one | mixed
    'nvar': 'none',           # none | swap (species change) | gc (number of particles changes)
    'drift': 0.0,             # uniform velocity of the system (units of L per frame)
    'origin': 'center',       # center: positions in [-L/2, L/2]; corner: in [0, L]
    'species': 'letters',     # letters | C (0, 1, ...) | F (1, 2, ...)
    'periodic': True,
    'walk': None,             # explicit displacements [frame-1][particle][dim] in units of L
    'stress': False,          # frames carry the (virial) stress tensor
    'start': None,            # explicit initial positions [particle][dim] in units of L
}

STEPS = {
    'lin1': lambda n: [i for i in range(n)],
    'lin10': lambda n: [10 * i for i in range(n)],
    'off': lambda n: [7 + 10 * i for i in range(n)],
    'log4': lambda n: [8 * (i // 4) + [0, 1, 2, 4][i % 4] for i in range(n)],
    'log3': lambda n: [9 * (i // 3) + [0, 1, 3][i % 3] for i in range(n)],
    'log2': lambda n: [10 * (i // 2) + [0, 3][i % 2] for i in range(n)],
    'logoff': lambda n: [16 + 8 * (i // 4) + [0, 1, 2, 4][i % 4] for i in range(n)],
    'irr': lambda n: [i * i for i in range(n)],
}

G = [0.7548776662466927, 0.5698402909980532, 0.8191725133961645, 0.6710436067037893,
     0.5497004779019703, 0.8566748838545029]


def _frac(x):
    return x - math.floor(x)


def h(*key):
    """Deterministic quasi-random number in [0,1) from integers"""
    x = 0.5
    for i, k in enumerate(key):
        x += (k + 1) * G[i % len(G)] * (1 + 0.37 * (i // len(G)))
        x = _frac(x * (1.0 + 0.618033988749895 * (i + 1)))
    return _frac(x * 13.37)


class World:

    def __init__(self, spec=None, **kwargs):
        s = dict(DEFAULTS)
        if spec:
            s.update(spec)
        s.update(kwargs)
        unknown = set(s) - set(DEFAULTS)
        if unknown:
            raise KeyError('unknown world keys %s' % unknown)
        self.spec = s
        d = self.ndim = s['ndim']
        F = self.frames = s['frames']
        N = len(s['layout'])
        self.steps = STEPS[s['steps']](F) if isinstance(s['steps'], str) else list(s['steps'])
        self.timestep = s['timestep']
        L = s['L']
        self.side = numpy.full((F, d), float(L))
        if s['cell'] == 'ortho':
            self.side *= numpy.array([1.0, 1.3, 1.15, 0.9][:d])
        elif s['cell'] == 'long':
            self.side *= numpy.array([2.2, 1.0, 1.0, 1.0][:d])
        elif s['cell'] == 'var':
            for f in range(F):
                self.side[f] *= 1.0 + 0.03 * f
        elif s['cell'] == 'osc':
            # comes back to the initial value in the last frame
            for f in range(F):
                self.side[f] *= 1.0 + (0.07 if 0 < f < F - 1 else 0.0)
        elif s['cell'] != 'cubic':
            raise KeyError(s['cell'])
        # Unwrapped paths, in units of the box so that a variable cell is affine
        red = numpy.zeros((F, N, d))
        for i in range(N):
            for j in range(d):
                red[0, i, j] = h(s['seed'], i, j) - 0.5 if s['start'] is None else s['start'][i][j]
        for f in range(1, F):
            for i in range(N):
                for j in range(d):
                    if s['walk'] is not None:
                        step = s['walk'][f - 1][i][j]
                    else:
                        step = s['amp'] * (2 * h(s['seed'], f, i, j) - 1)
                    red[f, i, j] = red[f - 1, i, j] + step + s['drift'] * (1.0 if j != 1 else -0.6)
        unw = red * self.side[:, None, :]
        pos = unw - numpy.rint(red) * self.side[:, None, :]
        if s['origin'] == 'corner':
            pos = pos + self.side[:, None, :] / 2
            unw = unw + self.side[:, None, :] / 2
        if s['images']:
            n = s['images']
            for f in range(F):
                for i in range(N):
                    for j in range(d):
                        k = int(math.floor(h(91 + s['seed'], f, i, j) * (2 * n + 1))) - n
                        pos[f, i, j] += k * self.side[f, j]
        vel = numpy.zeros((F, N, d))
        for f in range(F):
            for i in range(N):
                for j in range(d):
                    vel[f, i, j] = 2 * h(7 + s['seed'], f, i, j) - 1
        letters = list(s['layout'])
        names = sorted(set(letters))
        if s['species'] == 'C':
            names = {x: str(i) for i, x in enumerate(names)}
        elif s['species'] == 'F':
            names = {x: str(i + 1) for i, x in enumerate(names)}
        else:
            names = {x: x for x in names}
        base = [names[x] for x in letters]
        self.species = [list(base) for _ in range(F)]
        self.mass = numpy.array([1.0 if s['masses'] == 'one' else 1.0 + 0.5 * (i % 3) for i in range(N)])
        self.radius = numpy.array([0.3 + 0.1 * h(3, i) for i in range(N)])
        self.field = numpy.array([[2 * h(11 + s['seed'], f, i) - 0.8 for i in range(N)] for f in range(F)])
        self.index = [list(range(N)) for _ in range(F)]
        self.pos = [pos[f] for f in range(F)]
        self.unw = [unw[f] for f in range(F)]
        self.vel = [vel[f] for f in range(F)]
        if s['nvar'] == 'swap':
            for f in range(1, F):
                if f % 2:
                    self.species[f] = self.species[f][1:] + self.species[f][:1]
                if f % 3 == 2:
                    self.species[f][0] = self.species[f][-1]
        elif s['nvar'] == 'gc':
            for f in range(1, F):
                keep = [i for i in range(N) if (i + f) % 4 != 0]
                self.index[f] = keep
                self.species[f] = [base[i] for i in keep]
                self.pos[f] = pos[f][keep]
                self.unw[f] = unw[f][keep]
                self.vel[f] = vel[f][keep]
        elif s['nvar'] != 'none':
            raise KeyError(s['nvar'])
        self.periodic = s['periodic']

    @property
    def N(self):
        return len(self.spec['layout'])

    def dumpable(self, *groups):
        """
        atooms refuses to dump as many particles as there are dimensions: whether
        no group of particles does that in any frame
        """
        return all(len(self.select(f, g)) != self.ndim for f in range(self.frames) for g in groups)

    def total_time(self):
        return (self.steps[-1] - self.steps[0]) * self.timestep

    def select(self, f, what=None):
        """Indices (in frame f) of particles of species `what`; `what` may be a predicate (f, i) -> bool"""
        n = len(self.species[f])
        if what is None:
            return list(range(n))
        if callable(what):
            return [i for i in range(n) if what(f, i)]
        return [i for i in range(n) if self.species[f][i] == what]

    def system(self, f):
        from atooms.system import System, Particle, Cell
        particles = []
        for i in range(len(self.species[f])):
            orig = self.index[f][i]
            p = Particle(position=self.pos[f][i].copy(), velocity=self.vel[f][i].copy(),
                         species=self.species[f][i], mass=self.mass[orig], radius=self.radius[orig])
            p.charge = self.field[f][orig]
            p.tagged = orig
            if self.spec['unfolded_attr']:
                p.position_unfolded = self.unw[f][i].copy()
            particles.append(p)
        if self.periodic is None:
            return System(particle=particles, cell=None)
        cell = Cell(self.side[f].copy(), periodic=numpy.array([bool(self.periodic)] * self.ndim))
        system = System(particle=particles, cell=cell)
        if self.spec['stress']:
            from atooms.system.interaction import Interaction
            system.interaction = Interaction()
            system.interaction.stress = self.stress(f)
        return system

    def stress(self, f):
        """Virial part of the stress tensor"""
        d = self.ndim
        return numpy.array([[5 * h(23 + self.spec['seed'], f, min(i, j), max(i, j)) - 2 for j in range(d)] for i in range(d)])

    def trajectory(self, filename=None, cache=False):
        return _traj_class()(self, filename, cache)

    def write_xyz(self, path):
        """Write as an extended xyz file in the way users would store it"""
        with open(path, 'w') as fh:
            for f in range(self.frames):
                fh.write('%d\n' % len(self.species[f]))
                side = ','.join('%.12g' % x for x in self.side[f])
                fh.write('step:%d cell:%s columns:id,pos,vel,mass,charge,radius timestep:%g ndim:%d\n' %
                         (self.steps[f], side, self.timestep, self.ndim))
                for i in range(len(self.species[f])):
                    orig = self.index[f][i]
                    row = [self.species[f][i]]
                    row += ['%.12f' % x for x in self.pos[f][i]]
                    row += ['%.12f' % x for x in self.vel[f][i]]
                    row += ['%.12f' % self.mass[orig], '%.12f' % self.field[f][orig], '%.12f' % self.radius[orig]]
                    fh.write(' '.join(row) + '\n')
        return path


_cls = None


def _traj_class():
    global _cls
    if _cls is None:
        from atooms.trajectory.base import TrajectoryBase

        class WorldTrajectory(TrajectoryBase):

            suffix = 'world'

            def __init__(self, world, filename=None, cache=False):
                super().__init__(filename, 'w', cache)
                self.world = world
                self.steps = list(world.steps)
                self._timestep = world.timestep

            def read_steps(self):
                return list(self.world.steps)

            def read_timestep(self):
                return self.world.timestep

            def read_system(self, frame):
                return self.world.system(frame)

        _cls = WorldTrajectory
    return _cls


def close(a, b, rtol=1e-9, atol=1e-10):
    """True if two sequences have the same length and agree within rounding; nan matches nan"""
    a = numpy.asarray(a, dtype=float)
    b = numpy.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(numpy.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
