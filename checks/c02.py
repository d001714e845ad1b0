"""
C02: the time grid of a result consists of the available time separations
nearest to the requested times.

Space: (A) step sequences built from all blocks of at most 4 frames within a
period of at most 6 steps (8 in the thorough tier), repeated 1-4 times, with and
without a truncated last block, x requests {all singletons, all pairs, and some
longer lists of an alphabet of times}, for the velocity autocorrelation; (B) for
every function with a time grid, sequences x request lists.
"""
import itertools
from mc import ref
from mc.engine import Check as Base, Violation
from mc.worlds import World, close

FUNCS = ['msd', 'alpha2', 'qst', 'qt', 'chi4', 'chi4opt', 'fskt', 'fsktlegacy', 'fkt', 's4kt', 'msd_nooffset', 'vacf']


def periodic(steps):
    """Whether the blocks detected in the sampling repeat themselves"""
    skip = ref.block_size(steps)
    return all(steps[i + di] - steps[i] == sep for sep, (off, di) in ref.separations(steps).items()
               for i in range(off, len(steps) - di, skip))


def sequences(period_max):
    seen = set()
    for start in (0, 5):
        for period in range(1, period_max + 1):
            for b in range(1, 5):
                for inner in itertools.combinations(range(1, period), b - 1):
                    block = (0,) + inner
                    for repeat in (1, 2, 3, 4):
                        for extra in range(0, b):
                            steps = [start + period * r + x for r in range(repeat) for x in block]
                            steps += [start + period * repeat + x for x in block[:extra]]
                            if 1 < len(steps) <= 10 and tuple(steps) not in seen and periodic(steps):
                                seen.add(tuple(steps))
                                yield steps
    # large gaps and timesteps
    for steps in ([0, 1, 10, 100, 1000], [0, 1000000, 2000000], [3]):
        yield steps


def requests(steps, full):
    last = steps[-1] - steps[0]
    alphabet = sorted({0, 1, 2, 3, last // 2, last - 1, last, last + 3} - {-1})
    singles = [[float(t)] for t in alphabet]
    frac = [[t + 0.3] for t in alphabet[:4]] + [[max(0, t - 0.2)] for t in alphabet[1:4]]
    pairs = [list(map(float, p)) for p in itertools.combinations(alphabet, 2)]
    lists = [[float(t) for t in range(last + 1)][:40], [float(t) for t in alphabet][::-1], [float(last), 0.0, float(last)],
             [last * x for x in (0.0, 0.1, 0.25, 0.5, 0.75, 1.0)]]
    return singles + frac + (pairs if full else pairs[::3]) + lists


def make(func, th, tgrid, norigins):
    import atooms.postprocessing as pp
    from atooms.postprocessing.s4kt import S4ktOverlap
    one = {'kgrid': [1.3], 'nk': 1, 'dk': 0.1}
    if func == 'msd':
        return pp.MeanSquareDisplacement(th, tgrid, norigins=norigins)
    if func == 'msd_nooffset':
        return pp.MeanSquareDisplacement(th, tgrid, norigins=norigins, no_offset=True)
    if func == 'vacf':
        return pp.VelocityAutocorrelation(th, tgrid, norigins=norigins)
    if func == 'alpha2':
        return pp.NonGaussianParameter(th, tgrid, norigins=norigins)
    if func == 'qst':
        return pp.SelfOverlap(th, tgrid, norigins=norigins)
    if func == 'qt':
        return pp.CollectiveOverlap(th, tgrid, norigins=norigins)
    if func == 'chi4':
        return pp.Chi4SelfOverlap(th, tgrid, norigins=norigins)
    if func == 'chi4opt':
        return pp.Chi4SelfOverlapOptimized(th, tgrid, norigins=norigins)
    if func == 'fskt':
        return pp.SelfIntermediateScatteringFast(th, tgrid=tgrid, norigins=norigins, normalize=False, **one)
    if func == 'fsktlegacy':
        return pp.SelfIntermediateScatteringLegacy(th, tgrid=tgrid, norigins=norigins, normalize=False, **one)
    if func == 'fkt':
        return pp.IntermediateScattering(th, tgrid=tgrid, norigins=norigins, normalize=False, **one)
    if func == 's4kt':
        return S4ktOverlap(th, tgrid, norigins=norigins, **one)


class Check(Base):

    pid = 'C02'
    bounds = ('A: all step sequences made of blocks of <=4 frames in a period <=6 (thorough: 8) repeated <=4 times with '
              'truncated tail (<=10 frames) x all singletons and pairs of an alphabet of requests x norigins {-1, "1"}; '
              'B: the same sequences with period <=4 (thorough: 5) x 12 functions')
    assumptions = ['the sampling pattern is recognized as periodic (uniform, or blocks of increasing gaps)',
                   'requests are matched to the nearest available separation up to the rounding of the request to steps',
                   'of equally near separations, any may be used']

    def cases(self):
        for steps in sequences(8 if self.thorough else 6):
            for norigins in (-1, '1'):
                yield {'func': 'vacf', 'steps': steps, 'norigins': norigins, 'timestep': 1.0}
            if self.thorough or steps[0] == 0:
                yield {'func': 'vacf', 'steps': steps, 'norigins': 1, 'timestep': 0.004}
        for steps in sequences(5 if self.thorough else 4):
            for func in FUNCS:
                for norigins in (-1, '1'):
                    for timestep in (1.0, 0.002):
                        yield {'func': func, 'steps': steps, 'norigins': norigins, 'timestep': timestep}

    def run(self, case):
        steps, dt, norigins, func = case['steps'], case['timestep'], case['norigins'], case['func']
        world = World(layout='A', frames=len(steps), steps=steps, timestep=dt, L=5.0, amp=0.1)
        offset = not ref.single_origin(norigins) and func != 'msd_nooffset'
        av = ref.separations(world.steps, offset)
        skip = ref.interval(norigins, world.steps, 1)
        th = world.trajectory()
        if func == 'qt' or func == 'vacf':
            reqs = requests(steps, True)
        else:
            reqs = requests(steps, False)
            if not self.thorough and 'k' in func:
                reqs = reqs[::3] + reqs[-2:]
        for req in reqs:
            grid, _ = make(func, th, [t * dt for t in req], norigins).compute()
            self.calls += 1
            if func in ('fskt', 'fsktlegacy', 'fkt'):
                grid = grid[1]
            elif func == 's4kt':
                grid = grid[0]
            got = [t / dt for t in grid]
            # Actual separations of the origins: they coincide with the nominal one if the sampling is periodic
            nominal = {}
            for sep, (off, di) in av.items():
                nominal[sep] = {steps[i + di] - steps[i] for i in range(off, len(steps) - di, skip)}
            allowed, missing = set(), []
            chosen = {int(round(x)) for x in got}
            if not close(got, [round(x) for x in got], rtol=1e-6, atol=1e-6):
                raise Violation('%s: times %s are not separations between frames' % (func, grid))
            for t in req:
                candidates = set(ref.nearest(av, t)) | set(ref.nearest(av, int(round(t))))
                allowed |= set().union(*[nominal[c] for c in candidates])
                if not any(nominal[c] <= chosen for c in candidates):
                    missing.append((t, sorted(candidates)))
            if missing:
                raise Violation('%s: steps %s, request %s: no separation serves %s, got %s' % (func, steps, req, missing, got))
            if not chosen <= allowed:
                raise Violation('%s: steps %s, request %s: %s are not the nearest to any request' % (
                    func, steps, req, sorted(chosen - allowed)))
            if any(b <= a for a, b in zip(got, got[1:])) and func not in ('chi4', 'chi4opt', 's4kt'):
                raise Violation('%s: grid %s is not increasing' % (func, grid))
            if len(chosen) != len(got):
                raise Violation('%s: duplicates in grid %s' % (func, grid))
            self.compared += 1
            self.outcome(got)
