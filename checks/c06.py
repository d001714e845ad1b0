"""
C06: S(k) equals the density fluctuations at the reported wave-vectors.

Space: (A) all placements of three particles on a lattice of positions (2D: 16^2
for the second and third; 3D: 27), total and cross terms, both implementations;
(B) all configurations with a bounded number of deviations from a default one;
(C) user-defined wave-vectors in 1-4 dimensions.
"""
import copy
import itertools
import math
import numpy
from mc import ref
from mc.build import K1
from mc.engine import Check as Base, Violation, deviations
from mc.worlds import World, close

KGRIDS = {'two': [K1, 1.42 * K1], 'one': [2 * K1], 'unsorted': [2 * K1, 0.8 * K1, 1.5 * K1], 'negative': [-1.0, 2 * K1],
          'odd': [1.0, 2.2, 3.0], 'default': None, 'close': [K1, 1.05 * K1, 1.1 * K1]}

# Integer wave-vectors
USER = {1: [[[1]], [[0]], [[2], [-3]], [[-1], [1]], [[1], [2]], [[0], [1]], [[5], [-2], [1]]],
        2: [[[1, 0]], [[0, 0]], [[2, -1], [-3, 0]], [[-1, -2]], [[0, 4], [3, 1], [1, 1]]],
        3: [[[1, 0, 0]], [[0, 0, 0]], [[2, -1, 1], [-3, 0, 0]], [[-1, -2, -2]], [[0, 4, 1], [3, 1, 0], [1, 1, 1]]],
        4: [[[1, 0, 0, 0]], [[2, -1, 1, 1], [-3, 0, 0, 1]], [[-1, -2, -2, 0]]]}


def species(system, what):
    s = copy.copy(system)
    s.particle = [p for p in system.particle if p.species == what]
    return s


class Check(Base):

    pid = 'C06'
    bounds = ('A: all placements of 2 particles (2D: 4x4, 3D: 3x3x3 points) around a third one x {all, A,B} x 2 implementations; '
              'B: all configurations with <=3 (thorough: 4) deviations over 13 axes; C: user-defined sets of integer wave-vectors '
              '(all pairs of an alphabet of shells) in 1-4 dimensions x groups x cells x implementations')
    assumptions = ['rounding below 1e-8', 'k shells whose edges coincide with the norm of a vector are skipped',
                   'with a fluctuating cell all the vectors of each shell are used and the reported k are those of the first frame']

    def cases(self):
        for ndim, pts in ((2, 4), (3, 3)):
            lattice = [[-0.45 + i * 0.25 if pts == 4 else [-0.45, 0.05, 0.3][i] for i in p]
                       for p in itertools.product(range(pts), repeat=ndim)]
            for p in lattice:
                yield {'part': 'A', 'ndim': ndim, 'first': p, 'others': lattice}
        axes = {
            'cls': ['legacy', 'fast'],
            'group': ['all', 'A', 'A,B', 'B,A', 'A,A', 'A,all', 'partial-AB', 'partial-BA', 'partial-BB', 'C,A'],
            'ndim': [3, 2],
            'kgrid': ['two', 'one', 'unsorted', 'negative', 'odd', 'default', 'close'],
            'nk': [20, 1, 3, 1000],
            'dk': [0.1, 0.02, 0.6, 1.3],
            'cell': ['cubic', 'ortho', 'long', 'var', 'osc'],
            'frames': [2, 1, 3, 5],
            'norigins': [-1, None, '1', 2, 0.5],
            'nvar': ['none', 'swap', 'gc'],
            'layout': ['AABABBABAB', 'AB' * 3, 'A', 'AABABBABABC'],
            'storage': ['center', 'corner', 'images'],
            'weight': [None, 'charge', 'charge-fluct', 'mass', 'other', 'other-fluct'],
            'seed': [0, 1],
        }
        for case in deviations(axes, 4 if self.thorough else 3):
            if case['kgrid'] == 'default' and (case['ndim'] == 3 and case['cell'] != 'cubic'):
                continue
            if case['cell'] in ('var', 'osc') and case['kgrid'] == 'default':
                continue
            yield dict(case, part='B')
        for ndim in (1, 2, 3, 4):
            for cell in ('cubic', 'ortho', 'long'):
                for group in ('all', 'A,B', 'A'):
                    for cls in ('legacy', 'fast'):
                        for weight in (None, 'charge'):
                            yield {'part': 'C', 'ndim': ndim, 'cell': cell, 'group': group, 'cls': cls, 'weight': weight}

    def run(self, case):
        if case['part'] == 'A':
            ndim = case['ndim']
            for other in case['others']:
                start = [[0.05] * ndim, case['first'], other] + [[0.1 * i, -0.13 * i, 0.07 * i][:ndim] for i in (1, 2)]
                world = World(ndim=ndim, layout='ABBBB', frames=1, start=start)
                if not world.dumpable(None, 'A', 'B'):
                    raise RuntimeError
                for group in ('all', 'A,B'):
                    for cls in ('legacy', 'fast') if ndim == 3 else ('legacy', ):
                        self.compare(world, cls, group, {'kgrid': [K1, 2.01 * K1], 'nk': 100, 'dk': 0.1}, None)
            return
        if case['part'] == 'C':
            shells = USER[case['ndim']]
            world = World(ndim=case['ndim'], layout='AABABBABAB', frames=2, cell=case['cell'])
            for a in shells:
                for b in shells + [None]:
                    self.compare(world, case['cls'], case['group'], {}, case['weight'], [x for x in (a, b) if x is not None])
            return
        kwargs = {'nk': case['nk'], 'dk': case['dk'], 'norigins': case['norigins']}
        kgrid = KGRIDS[case['kgrid']]
        if kgrid is None:
            kwargs.update({'ksamples': 5, 'kmax': 3.0})
        else:
            kwargs['kgrid'] = list(kgrid)
        if case['cell'] in ('var', 'osc'):
            kwargs['nk'] = 10**6
        world = World(ndim=case['ndim'], layout=case['layout'], frames=case['frames'], cell=case['cell'], nvar=case['nvar'],
                      origin='corner' if case['storage'] == 'corner' else 'center',
                      images=1 if case['storage'] == 'images' else 0, seed=case['seed'])
        self.compare(world, case['cls'], case['group'], kwargs, case['weight'])

    def compare(self, world, clsname, group, kwargs, weight, user=None):
        import atooms.postprocessing as pp
        from atooms.postprocessing.filter import Filter
        from atooms.postprocessing.partial import Partial
        cls = {'legacy': pp.StructureFactorLegacy, 'fast': pp.StructureFactorFast}[clsname]
        if group == 'all':
            names = (None, None)
        elif group == 'A':
            names = ('A', 'A')
        elif group == 'A,all':
            names = ('A', None)
        elif group.startswith('partial'):
            names = tuple(group[-2:])
            if weight is not None:
                return
        else:
            names = tuple(group.split(','))
        if not world.dumpable(None, *(names + (('A', 'B') if group.startswith('partial') else ()))):
            return
        everything = ('A', 'B') if group.startswith('partial') else ()
        if any(len(world.select(f, g)) == 0 for f in range(world.frames) for g in names + everything):
            return  # a group is empty
        th = world.trajectory()
        skip = ref.interval(kwargs.get('norigins', -1), world.steps, len(world.pos[0]))
        sampled = list(range(0, world.frames, skip))
        variable = any(numpy.any(s != world.side[0]) for s in world.side)
        if variable:
            kgrid = kwargs['kgrid']
            shells = []
            for f in sampled:
                _, _, ints = ref.wavevectors(kgrid, kwargs['dk'], world.side[f])
                shells.append([numpy.array(s) * 2 * math.pi / world.side[f] for s in ints])
                if self.edge(kgrid, kwargs['dk'], world.side[f]):
                    return
            _, _, ints = ref.wavevectors(kgrid, kwargs['dk'], world.side[0])
            first = [numpy.array(s) * 2 * math.pi / world.side[0] for s in ints]
        c = cls(th, **kwargs)
        if user is not None:
            c.kvectors = [[numpy.array(k) * 2 * math.pi / world.side[0] for k in shell] for shell in user]
        field = [world.field[f] for f in range(world.frames)]
        if weight is not None:
            name = weight.split('-')[0]
            if name == 'mass':
                field = [numpy.array([world.mass[world.index[f][i]] for i in range(len(world.pos[f]))])
                         for f in range(world.frames)]
                c.add_weight(field='mass')
            else:
                field = [world.field[f][world.index[f]] for f in range(world.frames)]
                fluct = weight.endswith('fluct')
                if name == 'other':
                    c.add_weight(trajectory=world.trajectory(), field='charge', fluctuations=fluct)
                else:
                    c.add_weight(field='charge', fluctuations=fluct)
        if group == 'A':
            c.add_filter(species, 'A')
        elif group == 'A,all':
            Filter(c, 'species == "A"')
        elif group.startswith('partial'):
            p = Partial(cls, ['A', 'B'], th, **kwargs)
            p.compute()
            c = p.partial[names]
        elif ',' in group:
            Filter(c, 'species == "%s", species == "%s"' % names)
        if not group.startswith('partial'):
            c.compute()
        self.calls += 1
        if not variable:
            source = p.partial['A', 'B'] if group == 'partial-BA' else c
            kvec = [[numpy.array(k) for k in shell] for shell in source.kvectors]
            shells = [kvec] * len(sampled)
            first = kvec
            if user is not None:
                wanted = [sorted([list(numpy.array(k) * 2 * math.pi / world.side[0]) for k in shell]) for shell in user]
                for shell, got in zip(wanted, kvec):
                    if not close(shell, sorted([list(k) for k in got])):
                        raise Violation('S(k): wave-vectors %s instead of %s' % (got, shell))
            if any(len(s) == 0 for s in kvec) or len(kvec) == 0:
                raise Violation('S(k): k-points without wave-vectors')
        grid = [numpy.mean([math.sqrt(float(numpy.dot(k, k))) for k in shell]) for shell in first]
        # Definition
        a0, a1 = names
        n0 = numpy.mean([len(world.select(f, a0)) for f in sampled])
        n1 = numpy.mean([len(world.select(f, a1)) for f in sampled])
        w = []
        for g in (a0, a1):
            this = [field[f][world.select(f, g)].copy() for f in range(world.frames)]
            if weight is not None and weight.endswith('fluct'):
                mean = numpy.mean([x.mean() for x in this])
                this = [x - mean for x in this]
            w.append(this)
        value = []
        for k in range(len(grid)):
            s, s0, s1, cnt = 0.0, 0j, 0j, 0
            for i, f in enumerate(sampled):
                p0, p1 = world.pos[f][world.select(f, a0)], world.pos[f][world.select(f, a1)]
                ks = numpy.array(shells[i][k])
                f0 = 1.0 if weight is None else w[0][f][:, None]
                f1 = 1.0 if weight is None else w[1][f][:, None]
                r0 = numpy.sum(f0 * numpy.exp(1j * p0.dot(ks.T)), axis=0)
                r1 = numpy.sum(f1 * numpy.exp(1j * p1.dot(ks.T)), axis=0)
                s += numpy.sum(r0 * r1.conj())
                s0 += numpy.sum(r0)
                s1 += numpy.sum(r1)
                cnt += len(ks)
            x = s / cnt
            if weight is not None:
                x -= (s0 / cnt) * (s1 / cnt).conjugate()
            value.append(x.real)
        if not close(c.grid, grid, rtol=1e-8, atol=1e-8):
            raise Violation('S(k) (%s, %s): grid %s instead of %s' % (clsname, group, list(c.grid), grid))
        norm = (n0 * n1)**0.5
        if not close(c.value, numpy.array(value) / norm, rtol=1e-7, atol=1e-8):
            raise Violation('S(k) (%s, %s): values %s instead of %s' % (clsname, group, list(c.value), (numpy.array(value) / norm).tolist()))
        if group != 'partial-BA' and not close(c.value_nonorm, value, rtol=1e-7, atol=1e-7):
            raise Violation('S(k) (%s, %s): value_nonorm %s instead of %s' % (clsname, group, list(c.value_nonorm), value))
        self.compared += 1
        self.outcome(numpy.round(value, 6).tolist())

    @staticmethod
    def edge(kgrid, dk, side):
        """Whether a norm coincides with the edge of a shell"""
        grid, dks, _ = ref.wavevectors(kgrid, dk, side)
        k0 = 2 * math.pi / numpy.array(side)
        n = 2 + int((grid[-1] + dks[-1]) / min(k0))
        axes = [numpy.arange(-n, n + 1)] * len(k0)
        pts = numpy.stack(numpy.meshgrid(*axes, indexing='ij'), axis=-1).reshape(-1, len(k0))
        norms = numpy.sqrt(((pts * k0)**2).sum(axis=1))
        for g, d in zip(grid, dks):
            if numpy.any(abs(abs(norms - g) - d) < 1e-9):
                return True
        return False
