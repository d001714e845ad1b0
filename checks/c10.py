"""
C10: dynamic susceptibilities are variances over time origins times N.

Space: (A) all walks of two particles over a small alphabet of displacements;
(B) all configurations with a bounded number of deviations from a default one,
for the plain and optimized four-point susceptibility, including the files; (C)
the generic susceptibility of 5 functions x sampling x norigins x time grids.
"""
import itertools
import os
import numpy
from mc import ref
from mc.engine import Check as Base, Violation, deviations
from mc.env import scratch_root
from mc.worlds import World, close
from checks.c01 import MOVES, default, times
from checks.c06 import species


class Check(Base):

    pid = 'C10'
    bounds = ('A: all walks of 2 particles, 5 moves in 2D (thorough: 4 frames, quick: 3), 3 moves in 3D, 3 frames; B: all '
              'configurations with <=3 (thorough: 4) deviations over 11 axes x 2 classes, with output files for 1/4 of them; '
              'C: 5 functions x frames 3..8 (thorough: 12) x 4 time grids x 5 norigins')
    assumptions = ['no displacement equal to the overlap distance a', 'rounding below 1e-9',
                   'the variance over one origin is zero',
                   'the sub-trajectories of the generic susceptibility start every `skip` frames, up to the longest time of the grid']

    def setup(self):
        self.tmp = scratch_root()

    def cases(self):
        for ndim, n, nf in ((2, 5, 4 if self.thorough else 3), (3, 3, 3)):
            for walk in itertools.product(range(n), repeat=2 * (nf - 1)):
                yield {'part': 'A', 'ndim': ndim, 'frames': nf, 'walk': list(walk)}
        axes = {
            'tgrid': ['all', 'sparse', 'half', 'nozero', 'beyond', 'repeated', 'dense', 'default'],
            'norigins': [-1, None, '1', 2, 3, 0.5, 1],
            'ndim': [3, 2, 1, 4],
            'layout': ['AABAB', 'A', 'AABBABA', 'AB' * 15],
            'frames': [6, 1, 2, 3, 9],
            'steps': ['lin10', 'log4', 'log3', 'log2', 'off', 'irr'],
            'timestep': [1.0, 0.005],
            'storage': ['center', 'corner', 'unfolded_attr', 'images'],
            'a': [0.3, 0.7, 1.7],
            'group': ['all', 'A', 'partial-B'],
            'seed': [0, 1],
        }
        n = 0
        for case in deviations(axes, 4 if self.thorough else 3):
            if len(case['layout']) == case['ndim'] or (case['layout'] == 'A' and case['group'] == 'partial-B'):
                continue
            for name in ('chi4', 'chi4opt'):
                n += 1
                yield dict(case, part='B', name=name, write=n % 4 == 0)
        for func in ('qst', 'qt', 'msd', 'alpha2', 'vacf'):
            for frames in range(3, 13 if self.thorough else 9):
                for steps in ('lin10', 'lin1', 'off'):
                    for frac in (0.35, 0.5, 0.75, 1.0):
                        yield {'part': 'C', 'func': func, 'frames': frames, 'steps': steps, 'frac': frac}

    def run(self, case):
        if case['part'] == 'A':
            ndim, nf = case['ndim'], case['frames']
            alphabet = MOVES[ndim]
            rest = [[0.0] * ndim] * 3
            moves = [[alphabet[case['walk'][f * 2 + i]] for i in range(2)] + rest for f in range(nf - 1)]
            start = [[.45, -.41, .3][:ndim], [-.2, .1, .44][:ndim]] + [[.1 * i, .3 - .2 * i, -.1 * i][:ndim] for i in (1, 2, 3)]
            world = World(ndim=ndim, layout='ABBBB', frames=nf, walk=moves, start=start)
            for name in ('chi4', 'chi4opt'):
                self.compare(name, world, 'all', times('all', world), -1, 0.3, False)
            return
        if case['part'] == 'C':
            return self.susceptibility(case)
        world = World(ndim=case['ndim'], layout=case['layout'], frames=case['frames'], steps=case['steps'],
                      timestep=case['timestep'], seed=case['seed'], unfolded_attr=case['storage'] == 'unfolded_attr',
                      origin='corner' if case['storage'] == 'corner' else 'center',
                      images=1 if case['storage'] == 'images' else 0, amp=0.1 if case['a'] < 0.5 else 0.22)
        tgrid = None if case['tgrid'] == 'default' else times(case['tgrid'], world)
        self.compare(case['name'], world, case['group'], tgrid, case['norigins'], case['a'], case['write'])

    def compare(self, name, world, group, tgrid, norigins, a, write):
        import atooms.postprocessing as pp
        from atooms.postprocessing.partial import Partial
        cls = {'chi4': pp.Chi4SelfOverlap, 'chi4opt': pp.Chi4SelfOverlapOptimized}[name]
        who = {'all': None, 'A': 'A', 'partial-B': 'B'}[group]
        if not world.dumpable(None, who, *(('A', 'B') if group == 'partial-B' else ())):
            return
        idx = world.select(0, who)
        skip = ref.interval(norigins, world.steps, world.N)
        request = tgrid
        if tgrid is None:
            request = default('chi4', world, {})
            if request is None:
                return
        sel = ref.selected(world.steps, world.timestep, request, not ref.single_origin(norigins))
        unw = [world.unw[f][idx] for f in range(world.frames)]
        expected = {}
        for sep, (off, di) in sel.items():
            w = []
            for i in range(off, world.frames - di, skip):
                d2 = ((unw[i + di] - unw[i])**2).sum(axis=1)
                if numpy.any(numpy.abs(d2 - a**2) < 1e-9):
                    return
                w.append(float(numpy.sum(d2 < a**2)))
            expected[(world.steps[off + di] - world.steps[off]) * world.timestep] = (numpy.mean(w), numpy.mean(numpy.square(w)), numpy.var(w) / len(idx))
        path = None
        if write:
            folder = os.path.join(self.tmp, 'c10-%d' % os.getpid())
            os.makedirs(folder, exist_ok=True)
            for f in os.listdir(folder):
                os.remove(os.path.join(folder, f))
            path = os.path.join(folder, 'trj')
        th = world.trajectory(path)
        args = dict(norigins=norigins, a=a)
        if group == 'partial-B':
            p = Partial(cls, ['A', 'B'], th, None if tgrid is None else list(tgrid), **args)
            p.compute()
            c = p.partial['B']
        else:
            c = cls(th, None if tgrid is None else list(tgrid), **args)
            if group == 'A':
                c.add_filter(species, 'A')
            c.compute()
        self.calls += 1
        order = sorted(range(len(c.grid)), key=lambda i: c.grid[i])
        ts = sorted(expected)

        def same(what, grid, value, column):
            if not close([grid[i] for i in order], ts):
                raise Violation('%s: time grid of the %s %s instead of %s' % (name, what, list(grid), ts))
            if not close([value[i] for i in order], [expected[t][column] for t in ts], rtol=1e-8, atol=1e-9):
                raise Violation('%s (norigins=%r): %s %s instead of %s' % (
                    name, norigins, what, [value[i] for i in order], [expected[t][column] for t in ts]))
        if len(c.grid) != len(ts) or len(c.value) != len(ts):
            raise Violation('%s: %d entries instead of %d' % (name, len(c.grid), len(ts)))
        same('susceptibility', c.grid, c.value, 2)
        same('average', c.average.grid, c.average.value, 0)
        same('mean square', c.variance.grid, c.variance.value, 1)
        if write:
            c.write()
            tag = '.B' if group == 'partial-B' else ''
            for symbol, column in (('chi4qs', 2), ('qsu', 0), ('q2su', 1)):
                x = numpy.loadtxt(path + '.pp.' + symbol + tag, ndmin=2)
                if x.shape != (len(ts), 2):
                    raise Violation('%s: file %s has shape %s' % (name, symbol, x.shape))
                if not close(x[order, 0], ts, rtol=1e-5, atol=1e-9) or \
                   not close(x[order, 1], [expected[t][column] for t in ts], rtol=1e-5, atol=1e-9):
                    raise Violation('%s: file %s does not contain the data' % (name, symbol))
        self.compared += 1
        self.outcome([expected[t] for t in ts])

    def susceptibility(self, case):
        import atooms.postprocessing as pp
        from atooms.postprocessing.susceptibility import Susceptibility
        from checks.c01 import model
        func = case['func']
        cls = {'qst': pp.SelfOverlap, 'qt': pp.CollectiveOverlap, 'msd': pp.MeanSquareDisplacement,
               'alpha2': pp.NonGaussianParameter, 'vacf': pp.VelocityAutocorrelation}[func]
        for norigins in (-1, 2, 3, 0.5, None):
            world = World(layout='AABAB', frames=case['frames'], steps=case['steps'], amp=0.1)
            total = world.total_time()
            tgrid = [t for t in times('all', world) if t <= case['frac'] * total + 1e-9]
            n = len(world.steps)
            skip = ref.interval(norigins, world.steps, world.N)
            last = int(n * (tgrid[-1] / total)) - skip
            values = {}
            for i in range(0, last, skip):
                sub = World(layout='AABAB', frames=case['frames'], steps=case['steps'], amp=0.1)
                for key in ('pos', 'unw', 'vel', 'steps', 'species', 'index'):
                    setattr(sub, key, getattr(sub, key)[i:])
                sub.frames = n - i
                sel = ref.selected(sub.steps, 1.0, tgrid, False)
                dts, y = model(func, sub, sel, n - i)
                for t, v in zip(dts, y):
                    values.setdefault(t, []).append(v)
            if not values:
                continue
            c = Susceptibility(cls, world.trajectory(), norigins, tgrid=list(tgrid))
            c.compute()
            self.calls += 1
            ts = sorted(values)
            expected = [numpy.var(values[t]) * world.N for t in ts]
            if not close(c.grid, ts):
                raise Violation('susceptibility of %s: grid %s instead of %s' % (func, list(c.grid), ts))
            if any(x != x for x in expected):
                continue
            if not close(c.value, expected, rtol=1e-7, atol=1e-9):
                raise Violation('susceptibility of %s (norigins=%r): %s instead of %s' % (func, norigins, list(c.value), expected))
            self.compared += 1
            self.outcome(func, numpy.round(expected, 8).tolist())
