"""
Uniform construction of the correlation objects of the library, with parameters
small enough to enumerate many of them.
"""
import os

K1 = 6.283185307179586 / 5.0   # smallest wave-vector for L=5

ONE_BODY_TIME = ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4opt']
FOURIER_TIME = ['fskt', 'fsktlegacy', 'fkt']
STATIC = ['gr', 'grlegacy', 'sk', 'skfast', 'ba', 'ik']
TIME = ONE_BODY_TIME + FOURIER_TIME + ['s4kt']
ALL = TIME + STATIC
TWO_BODY = ['gr', 'grlegacy', 'sk', 'skfast', 'ba', 'fkt']
WITH_CM = ['msd', 'fskt', 'fsktlegacy', 'fkt']
ONLY_3D = ['ik', 's4kt']


def cls(name):
    import atooms.postprocessing as pp
    from atooms.postprocessing.s4kt import S4ktOverlap
    return {
        'msd': pp.MeanSquareDisplacement, 'vacf': pp.VelocityAutocorrelation,
        'alpha2': pp.NonGaussianParameter, 'qst': pp.SelfOverlap, 'qt': pp.CollectiveOverlap,
        'chi4': pp.Chi4SelfOverlap, 'chi4opt': pp.Chi4SelfOverlapOptimized,
        'fskt': pp.SelfIntermediateScatteringFast, 'fsktlegacy': pp.SelfIntermediateScatteringLegacy,
        'fkt': pp.IntermediateScattering, 's4kt': S4ktOverlap,
        'gr': pp.RadialDistributionFunctionFast, 'grlegacy': pp.RadialDistributionFunctionLegacy,
        'sk': pp.StructureFactorLegacy, 'skfast': pp.StructureFactorFast,
        'ba': pp.BondAngleDistribution, 'ik': pp.SpectralDensity,
    }[name]


def arguments(name, world, tgrid=None, radius_file=None):
    """Default (args, kwargs) beyond the trajectory"""
    if tgrid is None:
        tgrid = [(s - world.steps[0]) * world.timestep for s in world.steps]
    k = {'nk': 3, 'dk': 0.1}
    if name in ('msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4opt'):
        return (), {'tgrid': list(tgrid)}
    if name in FOURIER_TIME:
        return (), dict(k, kgrid=[K1, 1.42 * K1], tgrid=list(tgrid))
    if name == 's4kt':
        return (), dict(k, tgrid=list(tgrid), kgrid=[K1, 1.42 * K1])
    if name in ('gr', 'grlegacy'):
        return (), {'dr': 0.25}
    if name in ('sk', 'skfast'):
        return (), dict(k, kgrid=[K1, 1.42 * K1])
    if name == 'ik':
        return (radius_file,), dict(k, kgrid=[K1, 1.42 * K1])
    if name == 'ba':
        n = len({x for s in world.species for x in s})
        return (), {'dtheta': 10.0, 'rcut': [[2.6] * n for _ in range(n)]}
    raise KeyError(name)


def make(name, th, world, tgrid=None, radius_file=None, **extra):
    args, kwargs = arguments(name, world, tgrid, radius_file)
    kwargs.update(extra)
    return cls(name)(th, *args, **kwargs)


def radius_file(world, folder):
    """Companion trajectory with the radii of the particles"""
    path = os.path.join(folder, 'radius.xyz')
    if not os.path.exists(path):
        world.write_xyz(path)
    return path


def observe(corr):
    """(grid, value) as plain nested lists"""
    import numpy

    def plain(x):
        if isinstance(x, (list, tuple, numpy.ndarray)):
            return [plain(y) for y in x]
        return float(x)
    return plain(corr.grid), plain(corr.value)
