"""
C22: the compiled kernels never access memory out of bounds.

Space: all configurations with a bounded number of departures from a default, over the
number of particles of each group, positions (generic, coincident, on a lattice which
spans the whole cell, outside the cell, on its faces), shape and periodicity of the
cell, number of dimensions, fluctuating number of particles and species, filters, and
the parameters of the functions which use the kernels (bin widths, ranges, grids,
cutoffs, wave-vectors, memory limits).  The kernels are rebuilt from the sources with
run-time checks of all array bounds, which end the process running the calculation.
Errors raised by the library are fine.
"""
import itertools
import numpy
from mc.engine import Check as Base, deviations
from mc.worlds import World

COMMON = {
    'na': [4, 0, 1, 2, 3, 60],
    'nb': [4, 0, 1, 2],
    'ndim': [3, 2, 1, 4],
    'where': ['generic', 'coincident', 'lattice', 'outside', 'face', 'clustered', 'far'],
    'cell': ['cubic', 'long', 'ortho', 'osc', 'var'],
    'periodic': [True, False, None],
    'vary': ['none', 'gc', 'swap', 'new'],
    'filters': [None, 'A', 'A,B', 'A,all', 'all,A', 'A,none', 'none', 'A,A'],
    'norigins': [-1, '1', 0.5],
}
SPECIFIC = {
    'gr': {'dr': [0.25, 0.04, 1.0, 2.6, 7.0, 100.0], 'rmax': [None, 0.1, 0.9, 1.1, 2.5, 3.0, 20.0, 4.33],
           'grid': [None, [0.125, 0.375], [0.02, 0.06, 0.1], [1.0, 3.0], [0.5, 0.5], [3.0, 1.0], [0.3, 0.8, 1.3], [0.5]], 'L': [5.0, 20.0, 0.5]},
    'ba': {'dtheta': [10.0, 7.0, 180.0, 200.0, 0.5, 90.0, 179.0], 'rcut': [2.6, 0.1, 100.0, 'one', 'three', 'negative', 'default', 'flat', 'nan'],
           'L': [5.0, 2.0]},
    'skfast': {'kgrid': ['small', 'zero', 'large', 'negative', 'default', 'repeated'], 'nk': [3, 1, 1000], 'dk': [0.1, 2.0],
               'kvectors': [None, 'unit', 'mixed', 'huge', 'empty']},
    'fskt': {'kgrid': ['small', 'zero', 'large', 'negative', 'default', 'repeated'], 'nk': [3, 1], 'dk': [0.1, 2.0],
             'kvectors': [None, 'unit', 'mixed', 'huge', 'empty'], 'lookup_mb': [64.0, 1e-4, 1e-2], 'tgrid': ['all', 'zero', 'beyond', 'default'],
             'fix_cm': [False, True], 'steps': ['lin10', 'log3', 'irr']},
    'chi4opt': {'a': [0.3, 0.0, 100.0], 'tgrid': ['all', 'zero', 'beyond', 'default'], 'steps': ['lin10', 'log3', 'irr']},
}
K1 = 6.283185307179586 / 5.0


def positions(where, n, ndim, frame):
    """In units of the side"""
    out = []
    for i in range(n):
        if where == 'coincident':
            x = [0.1] * ndim
        elif where == 'clustered':
            x = [0.001 * ((7 * i + 3 * j + frame) % 11) for j in range(ndim)]
        elif where == 'lattice':
            # Multiples of a quarter, including both faces: the largest possible distances and 180 degrees angles
            x = [((i // 3**j) % 3 - 1) * 0.5 if j < 2 else ((i + frame) % 5 - 2) * 0.25 for j in range(ndim)]
        elif where == 'face':
            x = [[-0.5, 0.5, 0.0][(i + j) % 3] for j in range(ndim)]
        else:
            x = [((i * 0.7548776662466927 + j * 0.5698402909980532 + (i * j + frame) * 0.31) % 1.0) - 0.5 for j in range(ndim)]
            if where == 'outside':
                x = [y + (i + j) % 3 - 1 for j, y in enumerate(x)]
            if where == 'far':
                x = [y + 1000 * ((i + j) % 3 - 1) for j, y in enumerate(x)]
        out.append(x)
    return numpy.array(out, dtype=float).reshape(n, ndim)


def pick(system, what):
    import copy
    s = copy.copy(system)
    s.particle = [p for p in system.particle if p.species == what]
    return s


def everything(system):
    return system


class Check(Base):

    pid = 'C22'
    kernel_flags = '-fcheck=bounds -g -O1'
    technique = 'exhaustive enumeration of configurations within a bound of departures, executed on kernels instrumented with bounds checks'
    bounds = ('5 functions using the kernels, all configurations with <=2 (thorough: 3) departures from the default in 12..16 characteristics')
    assumptions = ['accesses out of bounds within assumed-shape arrays are detected by the run-time checks of the compiler']

    def cases(self):
        for name, specific in SPECIFIC.items():
            axes = dict(COMMON)
            axes.update(specific)
            if name == 'chi4opt':
                axes = {k: v for k, v in axes.items() if k not in ('periodic',)}
            for case in deviations(axes, 3 if self.thorough else 2):
                if case['na'] == 60 and case['ndim'] == 4:
                    continue
                if case.get('kgrid') == 'default' and (case['cell'] != 'cubic' or case['ndim'] != 3):
                    continue
                if case.get('L') == 20.0 and (case['rmax'] == 0.1 or case['dr'] == 0.04 and case['rmax'] == 0.9) and case['ndim'] == 3:
                    # Millions of linked cells: slow
                    continue
                if case['ndim'] == 1 and name in ('skfast', 'fskt') and case.get('kvectors') is None:
                    continue
                yield dict(case, name=name)

    def world(self, case):
        layout = 'A' * case['na'] + 'B' * case['nb']
        world = World(ndim=case['ndim'], layout=layout, frames=4, cell=case['cell'], L=case.get('L', 5.0), periodic=case.get('periodic', True),
                      steps=case.get('steps', 'lin10'))
        N = len(layout)
        for f in range(4):
            world.pos[f] = positions(case['where'], N, case['ndim'], f) * world.side[f]
            world.unw[f] = world.pos[f]
            keep = list(range(N))
            if case['vary'] == 'gc':
                # Fewer or more particles than in the first frame
                keep = keep[f % 3:] if f % 2 else keep + keep[:f]
            elif case['vary'] == 'swap':
                world.species[f] = world.species[f][f:] + world.species[f][:f]
            elif case['vary'] == 'new' and f:
                world.species[f] = [x if i % 3 else 'D' for i, x in enumerate(world.species[f])]
            for attr in ('pos', 'unw', 'vel'):
                getattr(world, attr)[f] = getattr(world, attr)[f][keep]
            world.species[f] = [world.species[f][i] for i in keep]
            world.index[f] = keep
        return world

    def build(self, case, world):
        import atooms.postprocessing as pp
        name = case['name']
        th = world.trajectory()
        total = world.total_time()
        tgrid = {'all': [s * 1.0 - world.steps[0] for s in world.steps], 'zero': [0.0], 'beyond': [0.0, total * 2], 'default': None}.get(case.get('tgrid'))
        kgrid = {'small': [K1, 1.42 * K1], 'zero': [0.0, K1], 'large': [6 * K1], 'negative': [-1.0, K1], 'default': None,
                 'repeated': [K1, K1]}.get(case.get('kgrid'))
        kwargs = {'norigins': case['norigins']}
        if name == 'gr':
            grid = case['grid']
            c = pp.RadialDistributionFunctionFast(th, list(grid) if grid else None, dr=case['dr'], **dict(
                kwargs, **({'rmax': case['rmax']} if case['rmax'] else {})))
        elif name == 'ba':
            n = len({x for x in world.species[0]})
            rcut = case['rcut']
            rcut = {'one': [[2.6]], 'three': [[2.6] * 3] * 3, 'negative': [[-1.0] * n] * n, 'default': None, 'flat': [2.6] * n,
                    'nan': [[float('nan')] * n] * n}.get(rcut, [[rcut] * n] * n)
            c = pp.BondAngleDistribution(th, dtheta=case['dtheta'], rcut=rcut, **kwargs)
        elif name == 'chi4opt':
            c = pp.Chi4SelfOverlapOptimized(th, tgrid, a=case['a'], **kwargs)
        else:
            kwargs.update(nk=case['nk'], dk=case['dk'])
            if case['kgrid'] == 'default':
                kwargs.update(ksamples=3, kmax=4.0)
            if name == 'skfast':
                c = pp.StructureFactorFast(th, kgrid, **kwargs)
            else:
                c = pp.SelfIntermediateScatteringFast(th, kgrid, tgrid, fix_cm=case['fix_cm'], lookup_mb=case['lookup_mb'], **kwargs)
        for what in (case['filters'] or '').split(','):
            if what == 'all':
                c.add_filter(everything)
            elif what:
                c.add_filter(pick, what)
        if case.get('kvectors'):
            d = case['ndim']
            unit = [[K1 if i == j else 0.0 for i in range(d)] for j in range(d)]
            c.kvectors = {'unit': [unit], 'mixed': [unit, [[-K1] * d, [2 * K1] * d]], 'huge': [[[40 * K1] + [-30 * K1] * (d - 1)]],
                          'empty': [[]]}[case['kvectors']]
        return c

    def run(self, case):
        world = self.world(case)
        self.calls += 1
        try:
            c = self.build(case, world)
            c.compute()
            # Again, with arrays of a different size allocated in between
            c.compute()
        except TimeoutError:
            raise
        except Exception as exc:
            self.outcome(case['name'], type(exc).__name__, str(exc)[:60])
            return
        self.compared += 1
        value = numpy.array(c.value, dtype=float)
        self.outcome(case['name'], value.shape, float(numpy.nansum(value)))
