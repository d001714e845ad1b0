"""
C11: the spectral density and the four-point structure factor follow their
definitions.

Space: (I) spectral density: all configurations with a bounded number of
deviations from a default one, including companion trajectories with radii which
change in time, with more frames, or in another order of the columns; (S)
four-point structure factor: (SA) all walks of two particles over a small alphabet of
displacements; (SB) all configurations with a bounded number of deviations; (U)
user-defined wave-vectors for both.
"""
import itertools
import math
import os
import numpy
from mc import ref
from mc.build import K1
from mc.engine import Check as Base, Violation, deviations
from mc.env import scratch_root
from mc.worlds import World, close
from checks.c01 import MOVES, times
from checks.c06 import Check as SK, KGRIDS, USER


def form_factor(k, radius):
    """Fourier transform of the indicator function of a sphere"""
    if k == 0:
        return 4 * math.pi / 3 * radius**3
    return 4 * math.pi * (numpy.sin(k * radius) - k * radius * numpy.cos(k * radius)) / k**3


def radii(world, kind):
    """Radii of the particles of each frame"""
    out = []
    for f in range(world.frames):
        r = world.radius[world.index[f]].copy()
        if kind == 'varying':
            r = r * (1 + 0.1 * f)
        elif kind == 'one':
            r = numpy.full(len(r), 0.5)
        elif kind == 'zero':
            r[::2] = 0.0
        out.append(r)
    return out


def write_radii(path, world, radius, extra):
    """
    The companion trajectory; `extra`: it also has other frames, with other radii, at other
    steps
    """
    frames = []
    for f in range(world.frames):
        frames.append((world.steps[f], world, f, radius[f]))
        if extra:
            frames.append((world.steps[f] + 1, world, f, radius[f] + 0.37))
    if extra:
        frames.append((world.steps[-1] + 7, world, 0, radius[0] + 0.1))
    with open(path, 'w') as fh:
        for step, w, f, r in frames:
            fh.write('%d\nstep:%d cell:%s columns:id,pos,radius\n' % (len(r), step, ','.join('%.12g' % x for x in w.side[f])))
            for i in range(len(r)):
                fh.write('%s %s %.14f\n' % (w.species[f][i], ' '.join('%.12f' % x for x in w.pos[f][i]), r[i]))


class Check(Base):

    pid = 'C11'
    kernels = False
    bounds = ('I: spectral density, all configurations with <=3 (thorough: 4) deviations over 11 axes; S: S_4(k,t), all walks of 2 '
              'particles (3 moves, 3 frames, 3D) and all configurations with <=3 (thorough: 4) deviations over 11 axes; U: all '
              'pairs of shells of user-defined wave-vectors')
    assumptions = ['rounding below 1e-8', 'three dimensions', 'k shells whose edges coincide with the norm of a vector are skipped',
                   'no displacement equal to the overlap distance', 'the cell is fixed for S_4(k,t)',
                   'with a fluctuating cell, the reported k of I(k) lies within the range of the frames']

    def setup(self):
        self.tmp = scratch_root()

    def cases(self):
        axes = {
            'kgrid': ['two', 'one', 'unsorted', 'negative', 'odd', 'default', 'zero'],
            'nk': [20, 1, 3, 1000],
            'dk': [0.1, 0.6, 1.3],
            'cell': ['cubic', 'ortho', 'long', 'var', 'osc'],
            'frames': [2, 1, 3, 5],
            'norigins': [-1, '1', 2, 0.5, None],
            'nvar': ['none', 'swap', 'gc'],
            'layout': ['AABABBABAB', 'AB', 'A', 'AABABBABABC'],
            'storage': ['center', 'corner', 'images'],
            'radius': ['fixed', 'varying', 'one', 'zero'],
            'extra': [False, True],
            'seed': [0, 1],
        }
        for case in deviations(axes, 4 if self.thorough else 3):
            if case['kgrid'] == 'default' and case['cell'] != 'cubic':
                continue
            yield dict(case, part='I')
        for walk in itertools.product(range(3), repeat=4):
            yield {'part': 'SA', 'walk': list(walk)}
        axes = {
            'tgrid': ['all', 'sparse', 'half', 'nozero', 'beyond', 'repeated'],
            'norigins': [-1, '1', 2, 3, 0.5, None, 1],
            'layout': ['AABAB', 'A', 'AABBABA', 'AB' * 10],
            'frames': [6, 1, 2, 3, 9],
            'steps': ['lin10', 'log4', 'log3', 'log2', 'off'],
            'timestep': [1.0, 0.005],
            'storage': ['center', 'corner', 'unfolded_attr', 'images'],
            'a': [0.7, 0.3, 1.7],
            'kgrid': ['two', 'one', 'unsorted', 'negative', 'default'],
            'nk': [3, 1, 1000],
            'cell': ['cubic', 'ortho', 'long'],
            'seed': [0, 1],
        }
        for case in deviations(axes, 4 if self.thorough else 3):
            if case['kgrid'] == 'default' and case['cell'] != 'cubic':
                continue
            yield dict(case, part='SB')
        for cell in ('cubic', 'ortho', 'long'):
            for a in range(len(USER[3])):
                yield {'part': 'U', 'cell': cell, 'first': a}

    def run(self, case):
        if case['part'] == 'I':
            kwargs = {'nk': case['nk'], 'dk': case['dk'], 'norigins': case['norigins']}
            self.kgrid(case, kwargs)
            if case['cell'] in ('var', 'osc'):
                kwargs['nk'] = 10**6
            world = World(layout=case['layout'], frames=case['frames'], cell=case['cell'], nvar=case['nvar'],
                          origin='corner' if case['storage'] == 'corner' else 'center',
                          images=1 if case['storage'] == 'images' else 0, seed=case['seed'])
            self.spectral(world, kwargs, radii(world, case['radius']), case['extra'])
        elif case['part'] == 'SA':
            moves = [[MOVES[3][case['walk'][f * 2 + i]] for i in range(2)] for f in range(2)]
            world = World(layout='AB', frames=3, walk=moves, start=[[.45, -.41, .3], [-.2, .1, .44]])
            for cut in (0.3, 2.0):
                self.fourpoint(world, times('all', world), {'kgrid': [K1, 1.42 * K1], 'nk': 100, 'a': cut, 'norigins': -1})
        elif case['part'] == 'SB':
            kwargs = {'nk': case['nk'], 'norigins': case['norigins'], 'a': case['a']}
            self.kgrid(case, kwargs)
            world = World(layout=case['layout'], frames=case['frames'], steps=case['steps'], timestep=case['timestep'],
                          seed=case['seed'], cell=case['cell'], unfolded_attr=case['storage'] == 'unfolded_attr',
                          origin='corner' if case['storage'] == 'corner' else 'center',
                          images=1 if case['storage'] == 'images' else 0, amp=0.1 if case['a'] < 0.5 else 0.2)
            self.fourpoint(world, times(case['tgrid'], world), kwargs)
        else:
            world = World(layout='AABABBABAB', frames=4, cell=case['cell'])
            for b in USER[3] + [None]:
                user = [x for x in (USER[3][case['first']], b) if x is not None]
                self.spectral(world, {}, radii(world, 'varying'), False, user)
                self.fourpoint(world, times('all', world), {'kgrid': [1.0], 'a': 1.0}, user)

    @staticmethod
    def kgrid(case, kwargs):
        if case['kgrid'] == 'default':
            kwargs.update({'ksamples': 4, 'kmax': 3.0, 'kmin': 1.3})
        elif case['kgrid'] == 'zero':
            kwargs['kgrid'] = [0.0, K1]
        else:
            kwargs['kgrid'] = list(KGRIDS[case['kgrid']])

    def spectral(self, world, kwargs, radius, extra, user=None):
        import atooms.postprocessing as pp
        if not world.dumpable(None) or any(len(world.pos[f]) == 0 for f in range(world.frames)):
            return
        path = os.path.join(self.tmp, 'radius-%d.xyz' % os.getpid())
        write_radii(path, world, radius, extra)
        skip = ref.interval(kwargs.get('norigins', -1), world.steps, len(world.pos[0]))
        sampled = list(range(0, world.frames, skip))
        variable = any(numpy.any(s != world.side[0]) for s in world.side)
        if variable:
            if 'kgrid' not in kwargs:
                return
            shells = []
            for f in sampled:
                if SK.edge(kwargs['kgrid'], kwargs['dk'], world.side[f]):
                    return
                _, _, ints = ref.wavevectors(kwargs['kgrid'], kwargs['dk'], world.side[f])
                shells.append([numpy.array(s) * 2 * math.pi / world.side[f] for s in ints])
        c = pp.SpectralDensity(world.trajectory(), path, **kwargs)
        if user is not None:
            c.kvectors = [[numpy.array(k) * 2 * math.pi / world.side[0] for k in shell] for shell in user]
        grid, value = c.compute()
        self.calls += 1
        if not variable:
            shells = [[numpy.array(s) for s in c.kvectors]] * len(sampled)
        expected, kmean = [], []
        volume = numpy.mean([numpy.prod(s) for s in world.side])
        for k in range(len(shells[0])):
            s, cnt = 0.0, 0
            for i, f in enumerate(sampled):
                for kvec in shells[i][k]:
                    norm = math.sqrt(float(numpy.dot(kvec, kvec)))
                    z = numpy.sum(form_factor(norm, radius[f]) * numpy.exp(1j * world.pos[f].dot(kvec)))
                    s += abs(z)**2
                    cnt += 1
            expected.append(s / cnt / volume)
            kmean.append([numpy.mean(numpy.sqrt((numpy.array(s[k])**2).sum(axis=1))) for s in shells])
        # With a fluctuating cell, the reported k may be the one of any frame, or an average
        if len(grid) != len(kmean) or any(not min(m) - 1e-8 <= x <= max(m) + 1e-8 for x, m in zip(grid, kmean)):
            raise Violation('I(k): grid %s instead of %s' % (list(grid), kmean))
        if not close(value, expected, rtol=1e-7, atol=1e-9):
            raise Violation('I(k): %s instead of %s' % (list(value), expected))
        if not close(c.grid, grid) or not close(c.value, value):
            raise Violation('I(k): attributes differ from what compute() returned')
        self.compared += 1
        self.outcome('I', numpy.round(expected, 8).tolist())

    def fourpoint(self, world, tgrid, kwargs, user=None):
        from atooms.postprocessing.s4kt import S4ktOverlap
        if not world.dumpable(None):
            return
        a = kwargs['a']
        norigins = kwargs.get('norigins', -1)
        skip = ref.interval(norigins, world.steps, world.N)
        sel = ref.selected(world.steps, world.timestep, tgrid, not ref.single_origin(norigins))
        c = S4ktOverlap(world.trajectory(), list(tgrid), **kwargs)
        if user is not None:
            c.kvectors = [[numpy.array(k) * 2 * math.pi / world.side[0] for k in shell] for shell in user]
        c.compute()
        self.calls += 1
        kvec = [numpy.array(s) for s in c.kvectors]
        if user is not None:
            wanted = [sorted((numpy.array(k) * 2 * math.pi / world.side[0]).tolist() for k in shell) for shell in user]
            for shell, got in zip(wanted, kvec):
                if not close(shell, sorted(got.tolist())):
                    raise Violation('S4: wave-vectors %s instead of %s' % (got, shell))
        kmean = [numpy.mean(numpy.sqrt((s**2).sum(axis=1))) for s in kvec]
        expected = {}
        for sep, (off, di) in sel.items():
            w = [[] for _ in kvec]
            for i in range(off, world.frames - di, skip):
                d2 = ((world.unw[i + di] - world.unw[i])**2).sum(axis=1)
                if numpy.any(numpy.abs(d2 - a**2) < 1e-9):
                    return
                stay = world.pos[i][d2 < a**2]
                for k, shell in enumerate(kvec):
                    w[k].append(numpy.exp(1j * stay.dot(shell.T)).sum(axis=0))
            t = (world.steps[off + di] - world.steps[off]) * world.timestep
            expected[t] = [float(numpy.mean(numpy.mean(numpy.abs(numpy.array(x) - numpy.mean(x, axis=0))**2, axis=0))) / world.N for x in w]
        got_t = [float(x) for x in c.grid[0]]
        order = sorted(range(len(got_t)), key=lambda i: got_t[i])
        ts = sorted(expected)
        if not close([got_t[i] for i in order], ts):
            raise Violation('S4: time grid %s instead of %s' % (got_t, ts))
        if not close(c.grid[1], kmean, rtol=1e-8, atol=1e-8):
            raise Violation('S4: k grid %s instead of %s' % (list(c.grid[1]), kmean))
        if len(c.value) != len(ts):
            raise Violation('S4: %d rows instead of %d' % (len(c.value), len(ts)))
        if not close([list(c.value[i]) for i in order], [expected[t] for t in ts], rtol=1e-7, atol=1e-9):
            raise Violation('S4 (norigins=%r): %s instead of %s' % (norigins, [list(c.value[i]) for i in order], [expected[t] for t in ts]))
        self.compared += 1
        self.outcome('S', [numpy.round(expected[t], 8).tolist() for t in ts])
