"""
C09: the bond-angle distribution counts all angles between neighbors.

Space: (A) all placements of two particles on a lattice around a third and a
fourth one, in 2D and 3D, all cutoff matrices over {0, short, long} for 2
species; (B) all configurations with a bounded number of deviations from a
default one.
"""
import itertools
import math
import numpy
from mc import ref
from mc.engine import Check as Base, Violation, deviations
from mc.worlds import World, close
from checks.c06 import species

LATTICE = [-0.45, -0.2, 0.1, 0.35]
GROUPS = ['all', 'A', 'A,B', 'B,A', 'A,A', 'A,all', 'partial-AB', 'partial-BA', 'partial-AA', 'partial-BB']


class Check(Base):

    pid = 'C09'
    bounds = ('A: all placements of 2 particles on a 4^2 (2D) or, for the second one, 4^3 (3D) lattice x 4 groups x 16 cutoff '
              'matrices; B: all configurations with <=3 (thorough: 4) deviations over 12 axes')
    assumptions = ['dtheta divides 180', 'no angle within 1e-6 of the edge of a bin, except 0 and 180 degrees',
                   'no distance equal to a cutoff, no coincident particles, no component equal to half a side',
                   'the distribution is not defined if there are no angles']

    def cases(self):
        for ndim in (2, 3):
            lattice = [list(p) for p in itertools.product(LATTICE, repeat=ndim)]
            firsts = lattice if ndim == 2 or self.thorough else lattice[::8]
            for first in firsts:
                yield {'part': 'A', 'ndim': ndim, 'first': first, 'others': lattice}
        axes = {
            'group': GROUPS,
            'dtheta': [7.2, 4.0, 0.9, 60.0, 180.0, 11.25],
            'rcut': ['mid', 'short', 'long', 'asym', 'huge', 'default', 'array'],
            'ndim': [3, 2, 4, 1],
            'layout': ['AABABBABAB', 'AABBB', 'AB' * 4 + 'C', 'A' * 30 + 'B' * 40, 'A' * 6],
            'cell': ['cubic', 'ortho', 'long', 'var', 'osc'],
            'frames': [2, 1, 3, 5],
            'norigins': [None, -1, '1', 2, 0.5],
            'nvar': ['none', 'swap', 'gc'],
            'storage': ['center', 'corner', 'images', 'images3'],
            'species': ['letters', 'F', 'C'],
            'seed': [0, 1, 2],
        }
        for case in deviations(axes, 4 if self.thorough else 3):
            if len(case['layout']) > 50 and sum(case[k] != v[0] for k, v in axes.items()) > (3 if case['rcut'] == 'default' else 2):
                continue
            if case['rcut'] == 'default' and (case['nvar'] != 'none' or case['layout'] == 'AABBB'):
                continue
            yield dict(case, part='B')

    def run(self, case):
        if case['part'] == 'A':
            ndim = case['ndim']
            for other in case['others']:
                start = [[0.02, -0.03, 0.01][:ndim], case['first'], other] + [[0.21, -0.11, 0.07][:ndim]] \
                    + [[-.13, .24, -.31][:ndim]]
                world = World(ndim=ndim, layout='ABBBB', frames=1, start=start)
                full = case['first'] == case['others'][1]
                for rcut in itertools.product((0.3, 1.9), repeat=4) if full else [(1.2, 2.3, 1.9, 1.4)]:
                    for group in ('all', 'A,B', 'B,A', 'B,B'):
                        self.compare(world, group, {'dtheta': 7.2, 'rcut': [list(rcut[:2]), list(rcut[2:])]})
            return
        world = World(ndim=case['ndim'], layout=case['layout'], cell=case['cell'], frames=case['frames'], nvar=case['nvar'],
                      seed=case['seed'], species=case['species'],
                      origin='corner' if case['storage'] == 'corner' else 'center',
                      images={'images': 1, 'images3': 3}.get(case['storage'], 0))
        n = len({x for f in range(world.frames) for x in world.species[f]})
        base = {'mid': 2.1, 'short': 0.4, 'long': 2.9, 'huge': 20.0, 'array': 1.8}.get(case['rcut'])
        if case['rcut'] == 'default':
            rcut = None
        elif case['rcut'] == 'asym':
            rcut = [[1.3 + 0.37 * i + 0.71 * j for j in range(n)] for i in range(n)]
        else:
            rcut = [[base] * n for _ in range(n)]
        kwargs = {'dtheta': case['dtheta'], 'rcut': numpy.array(rcut) if case['rcut'] == 'array' else rcut,
                  'norigins': case['norigins']}
        self.compare(world, case['group'], kwargs, case['species'])

    def compare(self, world, group, kwargs, style='letters'):
        import atooms.postprocessing as pp
        from atooms.postprocessing.filter import Filter
        from atooms.postprocessing.partial import Partial
        cls = pp.BondAngleDistribution
        letter = {'letters': {'A': 'A', 'B': 'B'}, 'C': {'A': '0', 'B': '1'}, 'F': {'A': '1', 'B': '2'}}[style]
        if group == 'all':
            names = (None, None)
        elif group == 'A':
            names = (letter['A'], letter['A'])
        elif group == 'A,all':
            names = (letter['A'], None)
        else:
            names = tuple(letter[x] for x in group.replace('partial-', '').replace(',', ''))
        every = tuple(letter.values()) if group.startswith('partial') else ()
        if not world.dumpable(None, *(names + every)):
            return
        if any(len(world.select(f, g)) == 0 for f in range(world.frames) for g in names + every):
            return
        th = world.trajectory()
        kwargs = dict(kwargs)
        present = sorted({x for x in world.species[0]})
        later = {x for s in world.species for x in s}
        if later - set(present):
            return  # a species appears later
        if kwargs['rcut'] is None and not world.dumpable(*present):
            return
        skip = ref.interval(kwargs.get('norigins'), world.steps, len(world.pos[0]))
        sampled = range(0, world.frames, skip)
        if kwargs['rcut'] is not None:
            density, total = self.model(world, names, numpy.array(kwargs['rcut']), present, sampled, kwargs['dtheta'])
            if density is None and total >= 0:
                return
            if total < 0:
                return
        if group.startswith('partial'):
            p = Partial(cls, [letter['A'], letter['B']], th, **kwargs)
            p.compute()
            c = p.partial[names]
        else:
            c = cls(th, **kwargs)
            if group == 'A':
                c.add_filter(species, letter['A'])
            elif group == 'A,all':
                Filter(c, 'species == "%s"' % letter['A'])
            elif ',' in group:
                Filter(c, 'species == "%s", species == "%s"' % names)
            try:
                c.compute()
            except (KeyError, IndexError):
                # With few particles there may be no minimum in the g(r)
                if kwargs['rcut'] is None and len(world.pos[0]) < 50:
                    return  # no minimum in the g(r)
                raise
        self.calls += 1
        if kwargs['rcut'] is None:
            rcut = numpy.array(c.rcut)
            if rcut.shape != (len(present), len(present)) or not numpy.all(numpy.isfinite(rcut)):
                raise Violation('BA: default cutoffs %s' % rcut)
            self.first_minimum(world, rcut, present)
            density, total = self.model(world, names, rcut, present, sampled, kwargs['dtheta'])
            if density is None:
                return
        dtheta = kwargs['dtheta']
        n = int(round(180.0 / dtheta))
        grid = [(i + 0.5) * dtheta for i in range(n)]
        if not close(c.grid, grid, rtol=1e-9, atol=1e-9):
            raise Violation('BA: grid %s instead of %s' % (list(c.grid), grid))
        if not close(c.value, density, rtol=1e-7, atol=1e-10):
            raise Violation('BA (%s): %s instead of %s (%d angles)' % (group, list(c.value), density.tolist(), total))
        if abs(numpy.sum(c.value) * dtheta - 1) > 1e-7:
            raise Violation('BA (%s): the distribution integrates to %s' % (group, numpy.sum(c.value) * dtheta))
        self.compared += 1
        self.outcome(numpy.round(density, 7).tolist())

    @staticmethod
    def first_minimum(world, rcut, present):
        """The default cutoffs are at the first minimum of the partial g(r) after its maximum"""
        import atooms.postprocessing as pp
        from atooms.postprocessing.partial import Partial
        gr = Partial(pp.RadialDistributionFunction, present, world.trajectory(), dr=0.1)
        gr.compute()
        for i, a in enumerate(present):
            for j, b in enumerate(present):
                r, g = gr.partial[a, b].grid, gr.partial[a, b].value
                imax = int(numpy.argmax(g))
                at = [k for k in range(len(r)) if abs(r[k] - rcut[i, j]) < 1e-9]
                if not at or at[0] < imax or g[at[0] + 1] < g[at[0]] or any(g[k + 1] >= g[k] for k in range(imax + 1, at[0])):
                    raise Violation('BA: the default cutoff %s-%s, %s, is not at the first minimum of g(r)' % (a, b, rcut[i, j]))

    @staticmethod
    def model(world, names, rcut, present, sampled, dtheta):
        """Density of angles, or None: if there are no angles (total=0) or the case is ambiguous (total=-1)"""
        n = int(round(180.0 / dtheta))
        hist = numpy.zeros(n)
        for f in sampled:
            a, b = world.select(f, names[0]), world.select(f, names[1])
            side = world.side[f]
            for i in a:
                dr = world.pos[f][b] - world.pos[f][i]
                x = dr / side
                if numpy.any(numpy.abs(numpy.abs(x - numpy.rint(x)) - 0.5) < 1e-9):
                    return None, -1
                dr = ref.minimum_image(dr, side)
                d = numpy.sqrt((dr**2).sum(axis=1))
                cut = numpy.array([rcut[present.index(world.species[f][i]), present.index(world.species[f][j])] for j in b])
                if numpy.any(numpy.abs(d - cut) < 1e-9) or sum(d < 1e-9) > (1 if i in b else 0):
                    return None, -1
                dr = dr[(d < cut) & (d > 1e-9)]
                if len(dr) < 2:
                    continue
                u = dr / numpy.sqrt((dr**2).sum(axis=1))[:, None]
                cos = numpy.clip(u.dot(u.T), -1, 1)
                theta = numpy.degrees(numpy.arccos(cos))[~numpy.eye(len(u), dtype=bool)]
                y = theta / dtheta
                inner = (numpy.rint(y) > 0) & (numpy.rint(y) < n)
                if numpy.any((numpy.abs(y - numpy.rint(y)) < 1e-6) & inner):
                    return None, -1
                for k in numpy.minimum(y.astype(int), n - 1):
                    hist[k] += 1
        if hist.sum() == 0:
            return None, 0
        return hist / (hist.sum() * dtheta), int(hist.sum())
