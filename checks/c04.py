"""
C04: g(r) counts every pair once, in the right bin, with the right norm.

Space: (A) all placements of two and three particles on a lattice of positions
(including periodic images), both backends, with and without linked cells, one or two
groups; (B) all configurations with a bounded number of deviations from a
default one.
"""
import itertools
import math
import numpy
from mc import ref
from mc.engine import Check as Base, Violation, deviations
from mc.worlds import World, close

LATTICE = [-0.47, -0.21, 0.04, 0.33, 0.49, 1.24]


class Check(Base):

    pid = 'C04'
    bounds = ('A: all placements of 2 particles on a 6^d lattice (with images; d=2,3) and of 3 particles on 3^2 points x 2 '
              'backends x {plain, linked cells} x {one group, two groups}; B: all configurations with <=3 (thorough: 4) '
              'deviations over 14 axes')
    assumptions = ['no distance within 1e-9 of a bin edge', 'requested grids are uniform and start at least at half a spacing',
                   'linked cells: boxes stay larger than 3 subcells while the cell fluctuates',
                   'for fluctuating cells, pair counts are weighted by the volume of their frame']

    def cases(self):
        for ndim in (2, 3):
            points = list(itertools.product(LATTICE, repeat=ndim))
            for first in ([0.04] * ndim, [-0.47] * ndim, [0.49, -0.21, -0.47][:ndim]):
                for chunk in range(0, len(points), 12):
                    yield {'part': 'A', 'ndim': ndim, 'first': first, 'others': [[list(p)] for p in points[chunk:chunk + 12]]}
        points = [list(p) for p in itertools.product([-0.47, 0.04, 0.49], repeat=2)]
        for p in points:
            yield {'part': 'A', 'ndim': 2, 'first': [0.1, -0.2], 'others': [[p, q] for q in points]}
        axes = {
            'backend': ['fast', 'legacy'],
            'group': ['all', 'A', 'A,B', 'B,A', 'A,A', 'A,all', 'C,A', 'partial-AB', 'partial-BB'],
            'rmax': [-1.0, 0.9, 1.7, 3.9, 0.31],
            'ndim': [3, 2, 1, 4],
            'layout': ['AABABBABAB', 'AB', 'A', 'ABA' * 13, 'A' * 400],
            'frames': [2, 1, 3, 4],
            'cell': ['cubic', 'ortho', 'long', 'var', 'osc'],
            'dr': [0.137, 0.0613, 0.29, 1.3],
            'rgrid': [None, [0.2, 0.111, 15], [0.0555, 0.111, 12], [0.71, 0.2, 9], [0.5, 1.0, 1], [0.5, 1.0, 2],
                      [0.0555, 0.111, 60]],
            'norigins': [-1, None, '1', 2, 0.5],
            'storage': ['center', 'corner', 'images', 'images3'],
            'nvar': ['none', 'swap', 'gc'],
            'periodic': [True, False, None],
            'seed': [0, 1],
        }
        for case in deviations(axes, 4 if self.thorough else 3):
            if self.meaningful(case):
                yield dict(case, part='B')

    @staticmethod
    def meaningful(c):
        n = len(c['layout'])
        if n == c['ndim'] or (n > 100 and (c['frames'] > 2 or c['ndim'] > 3)):
            return False
        if c['periodic'] is not True:
            # Non-periodic systems are only supported by the f90 backend, in the default grid
            if c['backend'] == 'legacy' or c['rgrid'] is not None:
                return False
            if c['storage'] != 'center':
                return False
            if c['periodic'] is None and (c['rmax'] <= 0 or c['cell'] in ('var', 'osc')):
                return False
        if c['rgrid'] is not None and c['rgrid'][2] == 1:
            return False
        if c['nvar'] == 'gc' and n <= 2:
            return False
        if c['layout'] == 'A' and c['group'] == 'partial-BB':
            return False
        return True

    def run(self, case):
        if case['part'] == 'A':
            for others in case['others']:
                self.lattice(case['ndim'], [case['first']] + others)
            return
        storage = case['storage']
        world = World(ndim=case['ndim'], layout=case['layout'], frames=case['frames'], cell=case['cell'], seed=case['seed'],
                      nvar=case['nvar'], periodic=case['periodic'],
                      origin='corner' if storage == 'corner' else 'center',
                      images={'images': 1, 'images3': 3}.get(storage, 0))
        kwargs = {'dr': case['dr'], 'rmax': case['rmax'], 'norigins': case['norigins']}
        if case['rgrid'] is not None:
            x0, dx, n = case['rgrid']
            kwargs['rgrid'] = [x0 + i * dx for i in range(n)]
        self.compare(world, case['backend'], case['group'], kwargs)

    def lattice(self, ndim, where):
        # Some more particles, because atooms cannot dump as many particles as dimensions
        layout = 'ABBB'[:len(where)] + ('AABBB' if ndim == 2 else 'A')
        start = where + [[0.155 * (i + 1) - 0.07 * j for j in range(ndim)] for i in range(len(layout) - len(where))]
        world = World(ndim=ndim, layout=layout, frames=1, start=start)
        world.pos[0] = numpy.array(start) * world.side[0]  # keep the images
        for backend in ('fast', 'legacy'):
            for rmax in (-1.0, 0.9):
                for group in ('all', 'A,B'):
                    self.compare(world, backend, group, {'dr': 0.131, 'rmax': rmax, 'norigins': -1})

    def compute(self, world, backend, group, kwargs):
        import atooms.postprocessing as pp
        from atooms.postprocessing.partial import Partial
        from atooms.postprocessing.filter import Filter
        cls = {'fast': pp.RadialDistributionFunctionFast, 'legacy': pp.RadialDistributionFunctionLegacy}[backend]
        th = world.trajectory()
        kwargs = dict(kwargs)
        if 'rgrid' in kwargs:
            kwargs['rgrid'] = list(kwargs['rgrid'])
        if group.startswith('partial'):
            p = Partial(cls, ['A', 'B'], th, **kwargs)
            p.compute()
            c = p.partial[tuple(group[-2:])]
        else:
            c = cls(th, **kwargs)
            if group in ('A',):
                c.add_filter(self.species, 'A')
            elif group == 'A,all':
                Filter(c, 'species == "A"')
            elif ',' in group:
                a, b = group.split(',')
                Filter(c, 'species == "%s", species == "%s"' % (a, b))
            c.compute()
        self.calls += 1
        return c.grid, c.value

    @staticmethod
    def species(system, what):
        import copy
        s = copy.copy(system)
        s.particle = [p for p in system.particle if p.species == what]
        return s

    def compare(self, world, backend, group, kwargs):
        # Groups
        if group == 'all':
            names, same = (None, None), True
        elif group == 'A':
            names, same = ('A', 'A'), True
        elif group == 'A,all':
            names, same = ('A', None), False
        elif group.startswith('partial'):
            names, same = tuple(group[-2:]), group[-1] == group[-2]
        else:
            names, same = tuple(group.split(',')), False
        if not world.dumpable(None, *([names[0], names[1]] if not group.startswith('partial') else ['A', 'B'])):
            return
        rmax, dr, ndim = kwargs['rmax'], kwargs['dr'], world.ndim
        skip = ref.interval(kwargs['norigins'], world.steps, len(world.pos[0]))
        sampled = list(range(0, world.frames, skip))
        crop = not world.periodic and world.periodic is not None and rmax > 0
        frames, used = [], []
        for f in sampled:
            a = world.pos[f][world.select(f, names[0])]
            b = world.pos[f][world.select(f, names[1])]
            if len(a) == 0 or len(b) == 0:
                continue
            side = world.side[f] if world.periodic else None
            if world.periodic is None:
                volume = len(world.pos[f]) / world.system(f).density if len(world.pos[f]) > 1 else None
            else:
                volume = float(numpy.prod(world.side[f]))
            if crop:
                a = a[numpy.all(numpy.abs(a) <= world.side[f] / 2 - rmax, axis=1)]
            frames.append((a, b, side, volume))
            used.append(f)
        if not frames or any(v is None for _, _, _, v in frames) or numpy.mean([len(x[0]) for x in frames]) == 0:
            return  # not defined
        if crop:
            same = False
        # Grid
        if 'rgrid' in kwargs:
            centers = numpy.array(kwargs['rgrid'])
            dr = kwargs['rgrid'][1] - kwargs['rgrid'][0]
        else:
            if world.periodic is None:
                top = rmax
            else:
                top = max(world.side[0]) * ndim**0.5
            centers = numpy.array([dr / 2 + i * dr for i in range(int((top - dr / 2) / dr + 1e-9) + 1)])
            if len(centers) < 2:
                return
        edges = numpy.append(centers - dr / 2, centers[-1] + dr / 2)
        limits = [rmax] if rmax > 0 else sorted({min(world.side[f]) / 2 for f in (sampled[-1], used[-1])})
        edges[0] = max(edges[0], 0.0)
        for a, b, side, _ in frames:
            d = ref.pairs(a, b, side, same)
            x = (d - edges[0]) / dr
            if numpy.any(numpy.abs(x - numpy.rint(x)) < 1e-9):
                return  # too close to a bin edge
        expected = ref.radial_distribution(frames, edges, ndim, same)
        grid, value = self.compute(world, backend, group, kwargs)
        for limit in limits:
            where = centers <= limit * (1 + 1e-12)
            if close(grid, centers[where], rtol=1e-7, atol=1e-9):
                break
        else:
            raise Violation('g(r) (%s, %s): grid %s, expected %s' % (backend, group, list(grid), centers[where].tolist()))
        if not close(value, expected[where], rtol=1e-6, atol=1e-9):
            raise Violation('g(r) (%s, %s): values %s, expected %s on grid %s' % (
                backend, group, list(value), expected[where].tolist(), list(grid)))
        self.compared += 1
        self.outcome(group, numpy.round(expected, 6).tolist())
