"""
C14: computing again gives the same result.

Space: all histories of bounded length over {compute, do, analyze, write, change the
setup: add a filter, add a weight, set the wave-vectors} on one object, for every
correlation class, Partial and Filter, in variants of the trajectory and of the
parameters.  After every computation the object must be indistinguishable from a
new one, set up in the same way and computed once.
"""
import itertools
import os
import numpy
from mc.build import K1
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from mc.worlds import World
from checks.c13 import observe, same, pick

WORLDS = {
    'plain': {},
    'blocks': {'steps': 'log3', 'frames': 6},
    'unfolded': {'unfolded_attr': True},
    'osc': {'cell': 'osc'},
    'file': {},
}


def builders():
    import atooms.postprocessing as pp
    from atooms.postprocessing.partial import Partial
    from atooms.postprocessing.filter import Filter
    from atooms.postprocessing.s4kt import S4ktOverlap
    from atooms.postprocessing.susceptibility import Susceptibility
    k = {'nk': 2, 'dk': 0.1}
    kg = [1.5 * K1, K1]

    def t(th, n=4):
        total = th.total_time
        return [0.0, total * 0.3, total * 0.55, total][:n]

    out = {
        'msd': lambda th, r: pp.MeanSquareDisplacement(th, t(th)),
        'msd-default': lambda th, r: pp.MeanSquareDisplacement(th),
        'msd-rmax': lambda th, r: pp.MeanSquareDisplacement(th, rmax=1.1, sigma=0.5),
        'msd-cm': lambda th, r: pp.MeanSquareDisplacement(th, t(th), fix_cm=True),
        'vacf': lambda th, r: pp.VelocityAutocorrelation(th, t(th)),
        'vacf-default': lambda th, r: pp.VelocityAutocorrelation(th),
        'alpha2': lambda th, r: pp.NonGaussianParameter(th, t(th)),
        'alpha2-default': lambda th, r: pp.NonGaussianParameter(th),
        'qst': lambda th, r: pp.SelfOverlap(th, t(th), a=1.0),
        'qst-default': lambda th, r: pp.SelfOverlap(th, a=1.0),
        'qt': lambda th, r: pp.CollectiveOverlap(th, t(th), a=1.0),
        'chi4': lambda th, r: pp.Chi4SelfOverlap(th, t(th), a=1.0),
        'chi4-default': lambda th, r: pp.Chi4SelfOverlap(th, a=1.0),
        'chi4opt': lambda th, r: pp.Chi4SelfOverlapOptimized(th, t(th), a=1.0),
        'susceptibility': lambda th, r: Susceptibility(pp.SelfOverlap, th, -1, tgrid=t(th, 2), a=1.0),
        'fskt': lambda th, r: pp.SelfIntermediateScatteringFast(th, kg, t(th)[1:], **k),
        'fskt-default': lambda th, r: pp.SelfIntermediateScatteringFast(th, None, None, ksamples=2, kmax=2.0, **k),
        'fsktlegacy': lambda th, r: pp.SelfIntermediateScatteringLegacy(th, [-1.0, 1.5 * K1], t(th)[1:], **k),
        'fkt': lambda th, r: pp.IntermediateScattering(th, kg, t(th)[1:], **k),
        'fkt-default': lambda th, r: pp.IntermediateScattering(th, None, None, ksamples=2, kmax=2.0, **k),
        's4kt': lambda th, r: S4ktOverlap(th, t(th), kg, a=1.0, **k),
        'gr': lambda th, r: pp.RadialDistributionFunctionFast(th, dr=0.3),
        'gr-rmax': lambda th, r: pp.RadialDistributionFunctionFast(th, dr=0.3, rmax=1.3),
        'gr-grid': lambda th, r: pp.RadialDistributionFunctionFast(th, [0.15 + 0.3 * i for i in range(6)]),
        'grlegacy': lambda th, r: pp.RadialDistributionFunctionLegacy(th, dr=0.3),
        'grlegacy-grid': lambda th, r: pp.RadialDistributionFunctionLegacy(th, [0.1 + 0.2 * i for i in range(10)]),
        'sk': lambda th, r: pp.StructureFactorLegacy(th, kg, **k),
        'sk-default': lambda th, r: pp.StructureFactorLegacy(th, ksamples=2, kmax=2.0, **k),
        'skfast': lambda th, r: pp.StructureFactorFast(th, kg, **k),
        'ik': lambda th, r: pp.SpectralDensity(th, r, kg, **k),
        'ba': lambda th, r: pp.BondAngleDistribution(th, dtheta=20.0, rcut=[[2.6, 2.2], [2.2, 2.4]]),
        'ba-default': lambda th, r: pp.BondAngleDistribution(th, dtheta=20.0),
        'msd-partial': lambda th, r: Partial(pp.MeanSquareDisplacement, ['A', 'B'], th, t(th)),
        'chi4-partial': lambda th, r: Partial(pp.Chi4SelfOverlap, ['A', 'B'], th, t(th), a=1.0),
        'fkt-partial': lambda th, r: Partial(pp.IntermediateScattering, ['A', 'B'], th, kg, t(th), **k),
        'sk-partial': lambda th, r: Partial(pp.StructureFactorLegacy, ['A', 'B'], th, kg, **k),
        'gr-partial': lambda th, r: Partial(pp.RadialDistributionFunctionFast, ['A', 'B'], th, dr=0.3),
        'ba-partial': lambda th, r: Partial(pp.BondAngleDistribution, ['A', 'B'], th, dtheta=20.0, rcut=[[2.6, 2.2], [2.2, 2.4]]),
        'sk-Filter': lambda th, r: Filter(pp.StructureFactorLegacy(th, kg, **k), 'species == "A", mass > 1.2'),
        'msd-Filter': lambda th, r: Filter(pp.MeanSquareDisplacement(th, t(th)), 'species == "A"'),
    }
    return out


TWO = ['fkt', 'fkt-default', 'gr', 'gr-rmax', 'gr-grid', 'grlegacy', 'grlegacy-grid', 'sk', 'sk-default', 'skfast', 'ba', 'ba-default']
STATIC = ['gr', 'gr-rmax', 'gr-grid', 'grlegacy', 'grlegacy-grid', 'sk', 'sk-default', 'skfast', 'ik', 'ba', 'ba-default', 'sk-partial',
          'gr-partial', 'ba-partial', 'sk-Filter']
WEIGHT = ['sk', 'sk-default', 'skfast', 'sk-partial', 'sk-Filter']
NAMES = ['msd', 'msd-default', 'msd-rmax', 'msd-cm', 'vacf', 'vacf-default', 'alpha2', 'alpha2-default', 'qst', 'qst-default', 'qt', 'chi4',
         'chi4-default', 'chi4opt', 'susceptibility', 'fskt', 'fskt-default', 'fsktlegacy', 'fkt', 'fkt-default', 's4kt', 'gr', 'gr-rmax', 'gr-grid',
         'grlegacy', 'grlegacy-grid', 'sk', 'sk-default', 'skfast', 'ik', 'ba', 'ba-default', 'msd-partial', 'chi4-partial', 'fkt-partial',
         'sk-partial', 'gr-partial', 'ba-partial', 'sk-Filter', 'msd-Filter']


class Check(Base):

    pid = 'C14'
    technique = ('explicit-state exploration of histories: all bounded sequences of operations on one object, run on the real code; '
                 'after each computation compared with a fresh object')
    bounds = ('all histories of up to 4 (thorough: 5) operations among compute, do, analyze, write, add_filter, add_weight, kvectors= that '
              'are meaningful, 40 kinds of objects, 5 variants of the trajectory')
    assumptions = ['results are compared within 1e-9']

    def setup(self):
        self.tmp = scratch_root()
        self.ref = {}

    def histories(self, name):
        """Every history with at least two computations, the last operation being one"""
        alphabet = ['compute', 'do', 'analyze', 'write']
        if name.endswith('partial'):
            alphabet.remove('analyze')
        plain = not name.endswith('partial') and not name.endswith('Filter')
        if plain and name not in ('susceptibility', 'ik'):
            alphabet.append('filterA')
        if name in TWO:
            alphabet.append('filterB')
        if name in WEIGHT:
            alphabet.append('weight')
        if name in ('sk', 'fkt', 'fskt', 'fsktlegacy', 's4kt', 'ik', 'skfast'):
            alphabet.append('kvectors')
        if name == 'susceptibility':
            alphabet = ['compute']
        for n in range(2, 6 if self.thorough else 5):
            for h in itertools.product(alphabet, repeat=n):
                if h[-1] not in ('compute', 'do') or sum(x in ('compute', 'do') for x in h) < 2:
                    continue
                if any(h.count(x) > 1 for x in ('filterA', 'filterB', 'weight', 'kvectors')):
                    continue
                first = min(h.index(x) for x in ('compute', 'do') if x in h)
                if any(h[i] in ('analyze', 'write') for i in range(first)):
                    continue
                yield list(h)

    def cases(self):
        for variant in WORLDS:
            for name in NAMES:
                if variant == 'osc' and name not in STATIC:
                    continue
                for h in self.histories(name):
                    if variant == 'osc' and 'kvectors' in h:
                        continue
                    yield {'name': name, 'variant': variant, 'history': h}

    def new(self, name, variant):
        spec = WORLDS[variant]
        world = World(dict(dict(layout='AABABBABAB', frames=4, masses='mixed'), **spec))
        radius = os.path.join(self.tmp, '%s-%d.xyz' % (variant, os.getpid()))
        if not os.path.exists(radius):
            world.write_xyz(radius)
        path = None
        if variant == 'file':
            path = os.path.join(self.tmp, 'out-%d' % os.getpid())
        return builders()[name](world.trajectory(path), radius)

    def apply(self, c, op):
        if op == 'filterA':
            c.add_filter(pick, 'A')
        elif op == 'filterB':
            c.add_filter(pick, 'B')
        elif op == 'weight':
            c.add_weight(field='charge', fluctuations=True)
        elif op == 'kvectors':
            c.kvectors = [[[K1, 0.0, 0.0], [0.0, -K1, 0.0]], [[K1, K1, 2 * K1]]]
        else:
            getattr(c, op)()

    @staticmethod
    def observe(c, op):
        out = observe(c)
        if hasattr(c, 'partial') and op == 'compute':
            # The analysis is done by do() only
            return {k: v[:2] for k, v in out.items()}
        return out

    def outputs(self, c):
        """Content of the files, and remove them"""
        out = {}
        base = 'out-%d.' % os.getpid()
        for f in sorted(os.listdir(self.tmp)):
            if f.startswith(base):
                path = os.path.join(self.tmp, f)
                with open(path) as fh:
                    out[f] = [x for x in fh.read().split('\n') if not x.startswith('# date')]
                os.remove(path)
        return out

    def fresh(self, name, variant, setup, last):
        key = (name, variant, setup, last)
        if key not in self.ref:
            c = self.new(name, variant)
            for op in setup:
                self.apply(c, op)
            self.outputs(c)
            try:
                getattr(c, last)()
            except (KeyError, IndexError):
                if name != 'ba-default':
                    raise
                self.ref[key] = None
                return None
            files = self.outputs(c) if variant == 'file' else None
            if hasattr(c, 'analyze') and last == 'compute':
                c.analyze()
            self.ref[key] = self.observe(c, last), files
            self.outcome(name, repr(self.ref[key]))
        return self.ref[key]

    def run(self, case):
        name, variant, history = case['name'], case['variant'], case['history']
        c = self.new(name, variant)
        setup = ()
        for i, op in enumerate(history):
            if op in ('filterA', 'filterB', 'weight', 'kvectors'):
                setup += (op, )
                self.apply(c, op)
                continue
            if op not in ('compute', 'do'):
                self.apply(c, op)
                continue
            expected = self.fresh(name, variant, setup, op)
            if expected is None:
                return
            self.outputs(c)
            self.apply(c, op)
            self.calls += 1
            if hasattr(c, 'analyze') and op == 'compute':
                c.analyze()
            got = self.observe(c, op)
            if not same(got, expected[0]):
                raise Violation('%s after %s: %s instead of %s' % (name, history[:i + 1], str(got)[:400], str(expected[0])[:400]))
            if variant == 'file' and op == 'do':
                files = self.outputs(c)
                if files != expected[1]:
                    raise Violation('%s after %s: the files are %s instead of %s' % (
                        name, history[:i + 1], str(files)[:400], str(expected[1])[:400]))
            self.compared += 1
