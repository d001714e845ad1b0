"""
C19: numeric helpers satisfy their contracts.

Space: every sequence of values of a small alphabet up to a given length, for every
combination of the other arguments of each helper (grids, levels, skips, offsets).
The oracles are written in exact rational arithmetic, from the definition of what each
helper is meant to return.
"""
import contextlib
import io
import itertools
import math
import os
import runpy
import sys
from fractions import Fraction
import numpy
from mc.engine import Check as Base, Violation
from mc.env import REPO

X = {'even': [0, 1, 2, 3, 4, 5, 6, 7], 'uneven': [0, 1, 3, 4, 8, 10, 11, 16], 'half': [-1.5, -1.0, 0.5, 0.75, 3.0, 3.5, 8.0, 9.0]}


def near(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def first_root(x, f, level):
    """The smallest abscissa at which the polyline through the data reaches level"""
    f = [Fraction(y) for y in f]
    x = [Fraction(y) for y in x]
    level = Fraction(level)
    n = min(len(x), len(f))
    for i in range(n):
        if f[i] == level:
            return x[i], i
        if i + 1 < n and (f[i] - level) * (f[i+1] - level) < 0:
            return x[i] + (level - f[i]) * (x[i+1] - x[i]) / (f[i+1] - f[i]), i + 1
    return None, None


def extremum(x, f, sign):
    """Location and value of the highest (sign=1) or lowest point"""
    f = [sign * Fraction(y) for y in f]
    x = [Fraction(y) for y in x]
    i = f.index(max(f))
    if i in (0, len(f) - 1):
        return x[i], sign * f[i]
    # Newton's form of the interpolating parabola
    d1 = (f[i] - f[i-1]) / (x[i] - x[i-1])
    d2 = ((f[i+1] - f[i]) / (x[i+1] - x[i]) - d1) / (x[i+1] - x[i-1])
    x0 = (x[i-1] + x[i]) / 2 - d1 / (2 * d2)
    return x0, sign * (f[i-1] + d1 * (x0 - x[i-1]) + d2 * (x0 - x[i-1]) * (x0 - x[i]))


def regression(x, y):
    x = [Fraction(v) for v in x]
    y = [Fraction(v) for v in y]
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    sxx = sum((v - mx)**2 for v in x)
    a = sum((v - mx) * (w - my) for v, w in zip(x, y)) / sxx
    b = my - a * mx
    residual = sum((w - a * v - b)**2 for v, w in zip(x, y))
    s = residual / (n - 2) if n > 2 else Fraction(0)
    return a, b, float(s / sxx)**0.5, float(s * sum(v**2 for v in x) / n / sxx)**0.5


def two_times(f, pairs, t, x):
    """Average of f over pairs of frames, pooled by their separation in time"""
    out = {}
    for i, j in pairs:
        out.setdefault(t[j] - t[i], []).append(f(x[j], x[i]))
    return [(dt, sum(out[dt]) / float(len(out[dt])), len(out[dt])) for dt in sorted(out)]


class Sequence:
    """What the set up of time grids needs to know about a trajectory"""

    def __init__(self, steps, block_size, timestep, npart=1):
        self.steps, self.block_size, self.timestep = steps, block_size, timestep
        self.particle = [None] * npart
        self.total_time = (steps[-1] - steps[0]) * timestep

    filename = None

    @property
    def times(self):
        return [step * self.timestep for step in self.steps]

    def read(self, i):
        return self[i]

    def __getitem__(self, i):
        if isinstance(i, int) and not -len(self.steps) <= i < len(self.steps):
            raise IndexError(i)
        return self

    def __iter__(self):
        return iter([self] * len(self.steps))

    def __len__(self):
        return len(self.steps)


class Check(Base):

    pid = 'C19'
    technique = 'exhaustive enumeration of small argument sequences against exact rational oracles'
    bounds = ('feqc, ifabsmm: all sequences of length <=6 (thorough: 7) over 4..5 values x 3 abscissas x 5 levels; linear_fit: length <=6 over '
              '4 values; grids: 9x9 end points x sizes <=9; setup_t_grid: all step sequences in 0..8 with <=6 frames x all requests of '
              '<=2 times; gcf, gcf_offset, acf: sequences of <=6 frames, all sets of <=3 offsets and separations, all skips; '
              'tabulated exponentials in 1-3 dimensions; filter and copy callbacks for all species layouts of 3 particles')
    assumptions = ['logarithmic grids starting from zero end at the requested end point minus one, if that is larger than one, and '
                   'leave out the second point of the geometric progression',
                   'where the largest multiple of a step equals the end point only up to rounding, the last point is unspecified']

    def cases(self):
        values = [-1, 0, 1, 2]
        size = 7 if self.thorough else 6
        for n in range(1, size + 1):
            # Subspaces share the first values of the sequence
            for head in itertools.product(values, repeat=min(n, 2)):
                for x in X:
                    yield {'what': 'feqc', 'n': n, 'x': x, 'head': list(head)}
                    yield {'what': 'ifabsmm', 'n': n, 'x': x, 'head': list(head)}
                    if n > 1:
                        yield {'what': 'linear_fit', 'n': n, 'x': x, 'head': list(head)}
        for x1 in (-2.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0, 3.5, 10.0):
            yield {'what': 'linear_grid', 'x1': x1}
            yield {'what': 'logx_grid', 'x1': x1}
        for n in range(1, 8 if self.thorough else 7):
            for rest in itertools.combinations(range(1, 9), n - 1):
                yield {'what': 't_grid', 'steps': [0] + list(rest)}
        for n in range(1, 7 if self.thorough else 6):
            for t in ('even', 'uneven'):
                for head in itertools.product([-1, 0, 2], repeat=min(n, 2)):
                    yield {'what': 'gcf', 'n': n, 't': t, 'head': list(head)}
        for ndim in (1, 2, 3):
            for layout in ('one', 'many'):
                for n in (1, 2, 3):
                    yield {'what': 'tabulation', 'ndim': ndim, 'layout': layout, 'n': n}
        for layout in itertools.product('ABC', repeat=3):
            yield {'what': 'species', 'layout': ''.join(layout)}
        for n in (1, 9, 10, 11, 25, 40):
            yield {'what': 'script', 'n': n}

    def run(self, case):
        getattr(self, case['what'])(case)

    def sequences(self, case, values):
        head = case['head']
        for tail in itertools.product(values, repeat=case['n'] - len(head)):
            yield head + list(tail)

    def feqc(self, case):
        from atooms.postprocessing.helpers import feqc
        x = X[case['x']][:case['n']]
        for f in self.sequences(case, [-1, 0, 1, 2]):
            for level in (-1, 0, 0.25, 1, 3):
                for extra in (0, 1):
                    args = (x + [100.0] * extra, f, level) if level != 1 else (x, f + [-5] * extra, level)
                    got = feqc(*args)
                    expected = first_root(*args)
                    self.calls += 1
                    if (got[0] is None) != (expected[0] is None):
                        raise Violation('feqc%s is %s instead of %s' % (args, got, expected))
                    if got[0] is not None and (not near(got[0], expected[0]) or got[1] != expected[1]):
                        raise Violation('feqc%s is %s instead of %s' % (args, got, expected))
                    self.compared += 1
            self.outcome(case['what'], f, got)

    def ifabsmm(self, case):
        from atooms.postprocessing.helpers import ifabsmm
        x = X[case['x']][:case['n']]
        for f in self.sequences(case, [-1, 0, 1, 2, 5]):
            for data in (f, numpy.array(f, dtype=float)):
                got = ifabsmm(x, data)
                self.calls += 1
                for g, sign in zip(got, (-1, 1)):
                    expected = extremum(x, f, sign)
                    if not near(g[0], expected[0]) or not near(g[1], expected[1]):
                        raise Violation('ifabsmm(%s, %s) is %s instead of %s' % (x, f, got, expected))
                    self.compared += 1
            self.outcome(case['what'], f, got)

    def linear_fit(self, case):
        from atooms.postprocessing.helpers import linear_fit
        x = X[case['x']][:case['n']]
        for y in self.sequences(case, [-1, 0, 1, 3]):
            got = linear_fit(numpy.array(x, dtype=float), numpy.array(y, dtype=float))
            expected = regression(x, y)
            self.calls += 1
            # Errors are square roots of differences
            if not all(near(g, e, tol) for g, e, tol in zip(got, expected, (1e-9, 1e-9, 1e-6, 1e-6))):
                raise Violation('linear_fit(%s, %s) is %s instead of %s' % (x, y, got, [float(e) for e in expected]))
            self.compared += 1
            self.outcome(case['what'], y, expected)

    def linear_grid(self, case):
        from atooms.postprocessing.helpers import linear_grid
        x1 = case['x1']
        for x2 in (-2.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0, 3.5, 10.0):
            for n in range(1, 10):
                got = linear_grid(x1, x2, n)
                expected = [Fraction(x1) + i * (Fraction(x2) - Fraction(x1)) / (n - 1) for i in range(n)] if n > 1 else [x1]
                self.same('linear_grid', (x1, x2, n), got, expected)
            for delta in (0.125, 0.25, 0.5, 1.0, 1.5, 0.1, 0.3, 0.7):
                if x2 < x1:
                    continue
                exact = delta in (0.125, 0.25, 0.5, 1.0, 1.5)
                n = int((Fraction(x2) - Fraction(x1)) // Fraction(delta)) + 1
                if not exact and abs((x2 - x1) / delta - round((x2 - x1) / delta)) < 1e-9:
                    continue
                self.same('linear_grid', (x1, x2, delta), linear_grid(x1, x2, delta), [Fraction(x1) + i * Fraction(delta) for i in range(n)])

    def logx_grid(self, case):
        from atooms.postprocessing.helpers import logx_grid
        x1 = case['x1']
        if x1 < 0:
            return
        for x2 in (0.01, 0.3, 0.75, 1.0, 1.5, 2.0, 12.0, 100.0, 1e4):
            if x2 <= x1:
                continue
            for n in range(1, 12):
                got = logx_grid(x1, x2, n)
                # Starting from zero, the progression is shifted by one
                shift = 0.0 if x1 > 0 else 1.0
                last = x2 if x1 > 0 or x2 <= 1 else x2 - 1
                if n == 1:
                    expected = [x1]
                else:
                    ratio = ((last + shift) / (x1 + shift))**(1.0 / n)
                    expected = [x1] + [(x1 + shift) * ratio**i - shift for i in range(2, n + 1)]
                self.same('logx_grid', (x1, x2, n), got, expected)
                if any(b <= a for a, b in zip(got, got[1:])):
                    raise Violation('logx_grid%s is not increasing: %s' % ((x1, x2, n), got))

    def same(self, what, args, got, expected):
        self.calls += 1
        if len(got) != len(expected) or not all(near(g, e) for g, e in zip(got, expected)):
            raise Violation('%s%s is %s instead of %s' % (what, args, got, [float(e) for e in expected]))
        self.compared += 1
        self.outcome(what, args, len(got))

    def t_grid(self, case):
        from atooms.postprocessing.helpers import setup_t_grid, adjust_skip
        steps = case['steps']
        n = len(steps)
        for timestep in (1.0, 0.1):
            for block in (1, 2, 3):
                if block > n:
                    continue
                th = Sequence(steps, block, timestep)
                for offset in (True, False):
                    offs = range(block) if offset else [0]
                    # Separations from frame 0 are always there; those from the others are all separations of actual frames
                    must = {s - steps[0] for s in steps}
                    if offset:
                        for o in offs:
                            must |= {steps[i] - steps[o] for i in range(o, n - o)}
                    for size in (1, 2):
                        for req in itertools.combinations((0, 1, 2.4, 3, 5, 7, 20), size):
                            got = setup_t_grid(th, [t * timestep for t in req], offset=offset)
                            self.calls += 1
                            seps = [steps[o + i] - steps[o] for o, i in got]
                            if any(o not in offs for o, i in got) or sorted(set(seps)) != seps:
                                raise Violation('setup_t_grid: %s from %s' % (got, (steps, block, req)))
                            for t in req:
                                best = min(abs(s - round(t)) for s in must)
                                if min(abs(s - round(t)) for s in seps) > best:
                                    raise Violation('setup_t_grid: %s for %s is not the nearest to %s' % (seps, steps, t))
                            for s in seps:
                                if all(abs(s - round(t)) > min(abs(m - round(t)) for m in must) for t in req):
                                    raise Violation('setup_t_grid: %s of %s was not requested by %s' % (s, steps, req))
                            self.compared += 1
                    self.outcome(steps, block, offset, got)
                # Skips: all origins are block_size apart, n origins divide the frames, at least one block
                for norigins, expected in ((-1, block), ('1', n), (1, n), (1.0, n), (0.5, 2 * block), ('0.5', 2 * block), (0.25, 4 * block),
                                           (None, block), (2, (n // block) // 2 * block), (3, (n // block) // 3 * block)):
                    expected = min(max(expected, block if norigins not in (1, '1', 1.0) else 1), n)
                    got = adjust_skip(th, norigins)
                    self.calls += 1
                    if got != expected:
                        raise Violation('adjust_skip(%s frames in blocks of %s, %r) is %s instead of %s' % (n, block, norigins, got, expected))
                    self.compared += 1

    def gcf(self, case):
        from atooms.postprocessing.correlation import acf, gcf, gcf_offset
        n = case['n']
        t = X[case['t']][:n]
        functions = [lambda a, b: (a - b)**2, lambda a, b: a * b + a - 2 * b]
        separations = list(range(n))
        sets = [list(c) for k in (1, 2, 3) for c in itertools.combinations(separations, k)]
        pairs = [(o, i) for o in range(min(n, 3)) for i in range(n - o)]
        grids = [list(c) for k in (1, 2, 3) for c in itertools.combinations(pairs, k)]
        if not self.thorough:
            grids = [g for g in grids if len(g) < 3 or sum(o for o, _ in g) == 2]
        for j, x in enumerate(self.sequences(case, [-1, 0, 2])):
            x = numpy.array(x, dtype=float)
            for skip in (1, 2, 3):
                for f in functions:
                    for grid in sets:
                        expected = two_times(f, [(i0, i0 + i) for i in grid for i0 in range(0, n - i, skip)], t, x)
                        self.table('gcf', (grid, skip, t, list(x)), gcf(f, grid, skip, t, x), expected)
                for grid in sets:
                    mean = sum(x) / n
                    f = lambda a, b: (a - mean) * (b - mean)
                    expected = two_times(f, [(i0, i0 + i) for i in grid for i0 in range(0, n - i, skip)], t, x)
                    dt, value, count = acf(grid, skip, t, x)
                    self.table('acf', (grid, skip, t, list(x)), (dt, value, [count[y] for y in dt]), expected)
                if j % 7 > 0 and not self.thorough:
                    continue
                for f in functions:
                    for grid in grids:
                        expected = two_times(f, [(i0, i0 + i) for o, i in grid for i0 in range(o, n - i, skip)], t, x)
                        self.table('gcf_offset', (grid, skip, t, list(x)), gcf_offset(f, grid, skip, t, x), expected)
            self.outcome(case['t'], list(x))

    def table(self, what, args, got, expected):
        self.calls += 1
        if list(got[0]) != [e[0] for e in expected] or not all(near(g, e[1]) for g, e in zip(got[1], expected)) or \
           len(got[1]) != len(expected) or (len(got) > 2 and list(got[2]) != [e[2] for e in expected]):
            raise Violation('%s%s is %s instead of %s' % (what, args, [list(x) for x in got], expected))
        self.compared += 1

    def tabulation(self, case):
        """exp(i n k0 x) along each axis, for n=-nmax..nmax"""
        from atooms.postprocessing.fourierspace import expo_sphere, expo_sphere_safe
        ndim, n = case['ndim'], case['n']
        shape = (n, ndim) if case['layout'] == 'one' else (2, n, ndim)
        size = int(numpy.prod(shape))
        for cell in itertools.product((2.0, 3.0, 5.5), repeat=ndim):
            k0 = 2 * math.pi / numpy.array(cell)
            for shift in range(3):
                pos = numpy.array([((7 * i + 5 * shift) % 11 - 5) / 4.1 for i in range(size)]).reshape(shape)
                for kmax in (0.5, 1.7, 4.0):
                    nmax = 1 + int(kmax / min(k0))
                    wave = numpy.exp(1j * (k0 * pos)[..., None] * numpy.arange(-nmax, nmax + 1))
                    tables = [expo_sphere(k0, nmax, pos)]
                    if case['layout'] == 'many':
                        tables.append(expo_sphere_safe(k0, kmax, pos))
                    for got in tables:
                        self.calls += 1
                        if got.shape != wave.shape or not numpy.allclose(got, wave, rtol=1e-9, atol=1e-9):
                            raise Violation('tabulated exponentials for %s in cell %s, nmax=%d' % (pos.tolist(), cell, nmax))
                self.compared += 1
        self.outcome(case)

    def species(self, case):
        """filter_species and copy_field do not modify the system"""
        from atooms.system import System, Particle
        from atooms.postprocessing.helpers import filter_species, copy_field
        layout = case['layout']
        for labels in ('ABC', (1, 2, 3)):
            ids = ['ABC'.index(x) for x in layout]
            particle = [Particle(species=labels[i], position=[float(j), 0.0, 0.0]) for j, i in enumerate(ids)]
            other = [Particle(species=labels[i], position=[float(j), 1.0, 0.0]) for j, i in enumerate(ids)]
            for j, p in enumerate(other):
                p.radius = 7.0 + j
            system = System(particle=particle)
            before = [dict(p.__dict__) for p in particle]
            for wanted in (None,) + tuple(labels) + ('Z',):
                got = filter_species(system, wanted)
                self.calls += 1
                expected = [p for p in particle if wanted is None or p.species == wanted]
                if [id(p) for p in got.particle] != [id(p) for p in expected] or system.particle is not particle or got is system:
                    raise Violation('filter_species of %s for %s' % (layout, wanted))
            system.frame = 1
            got = copy_field(system, 'radius', [None, System(particle=other)])
            if [p.radius for p in got.particle] != [7.0, 8.0, 9.0] or [list(p.position) for p in got.particle] != [[float(j), 0.0, 0.0] for j in range(3)] \
               or [p.species for p in got.particle] != [labels[i] for i in ids]:
                raise Violation('copy_field of %s' % layout)
            if len(particle) != 3 or any(set(a) != set(p.__dict__) or a['radius'] != p.radius for a, p in zip(before, particle)):
                raise Violation('filter_species or copy_field modify the particles of %s' % layout)
            self.compared += 1
        self.outcome(case)

    def script(self, case):
        """The acf script correlates a column of numbers, every ten entries"""
        n = case['n']
        x = [((7 * i * i + 3 * i) % 11) / 4.0 for i in range(n)]
        out = io.StringIO()
        stdin, argv = sys.stdin, sys.argv
        sys.stdin, sys.argv = io.StringIO('\n'.join(str(y) for y in x) + '\n'), ['acf.py']
        try:
            with contextlib.redirect_stdout(out):
                if n > 1:
                    runpy.run_path(os.path.join(REPO, 'bin', 'acf.py'), run_name='__main__')
        finally:
            sys.stdin, sys.argv = stdin, argv
        if n == 1:
            return
        mean = sum(x) / n
        expected = two_times(lambda a, b: (a - mean) * (b - mean), [(i0, i0 + i) for i in range(0, n, 10) for i0 in range(n - i)],
                             range(n), x)
        got = [[float(y) for y in line.split()] for line in out.getvalue().splitlines()]
        self.calls += 1
        if [g[0] for g in got] != [e[0] for e in expected] or not all(near(g[1], e[1]) for g, e in zip(got, expected)):
            raise Violation('acf of %s is %s instead of %s' % (x, got, expected))
        self.compared += 1
        self.outcome('script', n)
