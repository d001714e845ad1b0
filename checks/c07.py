"""
C07: wave-vectors are commensurate, distinct, within dk, at most nk each.

Space: (A) the product of cell shapes, dimensions, k grids, dk and nk of finite
alphabets, for S(k), compared with the brute-force shells; a reduced product for
the other Fourier-space functions; (B) all the user-defined sets of one or two
shells of at most two integer vectors of a small cube.
"""
import itertools
import math
import os
import resource
import random
import signal
import numpy
from mc import build, ref
from mc.build import K1
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from mc.worlds import World, close
from checks.c06 import species, Check as C06

KGRIDS = {
    'first': [K1], 'two': [K1, 2 * K1], 'unsorted': [2.1 * K1, 0.9 * K1, 1.5 * K1], 'negative': [-1.0, 2 * K1],
    'small': [0.01], 'gap': [0.5 * K1, 1.2 * K1, 2.05 * K1], 'close': [K1, 1.02 * K1, 1.1 * K1], 'zero': [0.0, 1.9],
    'equal': [K1, K1], 'dense': [0.9, 1.1, 1.3, 1.5, 1.7, 1.9, 2.1],
}
MORE = {'large': [4.1 * K1], 'wide': [0.7, 5.3]}
CELLS = {'cubic': [1, 1, 1], 'ortho': [1.0, 1.3, 1.15], 'long': [2.2, 1.0, 1.0], 'longz': [1.0, 1.0, 2.7], 'flat': [1.0, 0.6, 1.0]}
DEFAULTS = [{'ksamples': 4, 'kmax': 3.0}, {'ksamples': 5, 'kmin': 1.5, 'kmax': 2.9}, {'ksamples': 1, 'kmax': 2.0},
            {'ksamples': 2, 'kmin': 0.0, 'kmax': 2.0}, {'ksamples': 7, 'kmin': -1, 'kmax': 2.5}]


class Sided(World):
    """World with arbitrary sides"""

    def __init__(self, sides, **kwargs):
        super().__init__(**kwargs)
        scale = numpy.array(sides)
        self.side = self.side * scale
        self.pos = [p * scale for p in self.pos]
        self.unw = [p * scale for p in self.unw]


class Check(Base):

    pid = 'C07'
    bounds = ('A: {2,3} dimensions x 5 cells x 10 (thorough: 12) k grids + 5 default grids x 6 dk x 6 nk for S(k), 3 dk x 2 nk '
              'for 7 other classes; B: all user-defined sets of 1-2 shells of 1-2 vectors (quick: 2D {-2..2}^2 single vectors, '
              'pairs in {-1..1}^2; 3D {-1..1}^3 single vectors and pairs with a fixed one)')
    assumptions = ['shells whose edge coincides with the norm of a vector are skipped',
                   'of two overlapping shells the first in the sorted grid gets the vector',
                   'empty shells are widened by factors of 1.2',
                   'user-defined vectors are commensurate with the cell']

    def setup(self):
        self.tmp = scratch_root()

    def cases(self):
        grids = dict(KGRIDS)
        if self.thorough:
            grids.update(MORE)
        for ndim in (3, 2):
            for cell in CELLS:
                for kgrid in list(grids) + list(range(len(DEFAULTS))):
                    for dk in (0.1, 0.03, 0.31, 0.6, 1.3, 0.004):
                        if kgrid == 'dense' and dk < 0.01 and cell != 'cubic':
                            continue
                        yield {'part': 'A', 'name': 'sk', 'ndim': ndim, 'cell': cell, 'kgrid': kgrid, 'dk': dk,
                               'nk': [8, 1, 2, 7, 30, 5000]}
                    for dk in (0.1, 0.31):
                        for name in ('skfast', 'fskt', 'fsktlegacy', 'fkt', 'ik', 's4kt', 'sk-filter'):
                            if ndim == 2 and name in ('ik', 's4kt'):
                                continue
                            if kgrid in ('dense', 'zero') and cell != 'cubic':
                                continue
                            yield {'part': 'A', 'name': name, 'ndim': ndim, 'cell': cell, 'kgrid': kgrid, 'dk': dk,
                                   'nk': [3, 1000]}
        # Grids with more k points than distinct norms nearby
        for ndim, L, kmax, ksamples in ((2, 6.0, 5.0, 20), (3, 4.0, 2.0, 30)):
            yield {'part': 'A', 'name': 'sk', 'dense': True, 'ndim': ndim, 'L': L, 'kmax': kmax, 'ksamples': ksamples}
        for cell in ('cubic', 'ortho', 'long'):
            for ndim, m in ((2, 2), (3, 1), (1, 3), (4, 1)):
                for first in itertools.product(range(-m, m + 1), repeat=ndim):
                    yield {'part': 'B', 'ndim': ndim, 'cell': cell, 'first': list(first)}

    def run(self, case):
        if case['part'] == 'B':
            return self.user(case)
        if case.get('dense'):
            return self.dense(case)
        for nk in case['nk']:
            self.one(case, nk)

    def build(self, name, world, kwargs, filt=False):
        radius = None
        if name == 'ik':
            import os
            folder = os.path.join(self.tmp, 'c07-%d' % os.getpid())
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, 'radius.xyz')
            if os.path.exists(path):
                os.remove(path)
            radius = build.radius_file(world, folder)
        cls = build.cls(name)
        th = world.trajectory()
        if name == 'ik':
            c = cls(th, radius, **kwargs)
        elif name == 's4kt':
            c = cls(th, [0.0], **{k: v for k, v in kwargs.items()})
        elif name in build.FOURIER_TIME:
            c = cls(th, tgrid=[0.0, 10.0], **kwargs)
        else:
            c = cls(th, **kwargs)
        if filt:
            c.add_filter(species, 'A')
        return c

    def one(self, case, nk):
        ndim, name = case['ndim'], case['name']
        sides = CELLS[case['cell']][:ndim]
        world = Sided(sides, ndim=ndim, layout='AAAAB', frames=2)
        side = world.side[0]
        kwargs = {'nk': nk, 'dk': case['dk']}
        if isinstance(case['kgrid'], int):
            par = DEFAULTS[case['kgrid']]
            if case['cell'] != 'cubic' and 'kmin' not in par and ndim == 3:
                par = dict(par, kmax=2.0)
            if name == 's4kt':
                return
            par = dict({'kmin': -1.0}, **par)
            kwargs.update(par)
            k0 = 2 * math.pi / max(side)
            x0 = par['kmin'] if par['kmin'] > 0 else k0
            n = par['ksamples']
            wanted = [x0 + i * (par['kmax'] - x0) / (n - 1) for i in range(n)] if n > 1 else [x0]
        else:
            wanted = dict(KGRIDS, **MORE)[case['kgrid']]
            kwargs['kgrid'] = list(wanted)
        if C06.edge(wanted, case['dk'], side):
            return
        sorted_grid, dks, ints = ref.wavevectors(wanted, case['dk'], side)
        filt = name == 'sk-filter'
        name = 'sk' if filt else name
        rng = random.getstate()
        c = self.build(name, world, kwargs, filt)
        c.compute()
        self.calls += 1
        k0 = 2 * math.pi / numpy.array(side)
        got = []
        kvec = c.kvectors
        if len(kvec) != len(sorted_grid):
            raise Violation('%s: %d k points instead of %d' % (name, len(kvec), len(sorted_grid)))
        seen = set()
        for i, shell in enumerate(kvec):
            x = [numpy.array(v) / k0 for v in shell]
            r = [tuple(int(round(y)) for y in v) for v in x]
            if not close(x, r, rtol=1e-7, atol=1e-7):
                raise Violation('%s: vectors %s are not commensurate' % (name, shell))
            if len(set(r)) != len(r) or seen & set(r):
                raise Violation('%s: repeated wave-vectors %s' % (name, r))
            seen |= set(r)
            if len(r) != min(nk, len(ints[i])):
                raise Violation('%s: %d vectors at k=%s, %d fit and nk is %d' % (name, len(r), sorted_grid[i], len(ints[i]), nk))
            if not set(r) <= set(ints[i]):
                raise Violation('%s: vectors %s are not within dk of k=%s' % (name, sorted(set(r) - set(ints[i])), sorted_grid[i]))
            got.append(r)
        means = [numpy.mean([math.sqrt(float(numpy.dot(v, v))) for v in shell]) for shell in kvec]
        if not close(c.kgrid, means, atol=1e-9):
            raise Violation('%s: kgrid %s, the average norms are %s' % (name, list(c.kgrid), means))
        grid = c.grid
        if name in build.FOURIER_TIME:
            grid = c.grid[0]
        elif name == 's4kt':
            grid = c.grid[1]
        if not close(grid, means, atol=1e-9):
            raise Violation('%s: k points of the result %s, the average norms are %s' % (name, list(grid), means))
        # Report
        lines = [x.split() for x in c.report().split('\n') if x and not x.startswith('#')]
        if len(lines) != len(means) or not close([float(x[1]) for x in lines], means, atol=1e-5) or \
           [int(x[3]) for x in lines] != [len(x) for x in got] or \
           not close([float(x[2]) for x in lines], [numpy.std([math.sqrt(float(numpy.dot(v, v))) for v in shell]) for shell in kvec], atol=1e-5):
            raise Violation('%s: report() does not describe the wave-vectors' % name)
        lines = [[float(y) for y in x.split()] for x in c.report(verbose=True).split('\n') if x and not x.startswith('#')][len(means):]
        if not close(lines, [[m] + list(v) for m, shell in zip(means, kvec) for v in shell], atol=1e-9):
            raise Violation('%s: the verbose report() does not list the wave-vectors' % name)
        # Reproducible, whatever the state of the global generator and the filters
        if not filt and name == 'sk' and nk in (2, 7):
            saved = random.getstate()
            random.seed(12345 + nk)
            again = self.build(name, world, kwargs, nk == 2)
            again.compute()
            random.setstate(saved)
            self.calls += 1
            if not all(close(a, b) for a, b in zip(again.kvectors, kvec)):
                raise Violation('%s: the choice of vectors is not reproducible (or depends on filters)' % name)
        if random.getstate() != rng:
            raise Violation('%s: the global random state changed' % name)
        self.compared += 1
        self.outcome(name, got)

    def dense(self, case):
        """Does the setup of the wave-vectors end?  In a child process, which ends by itself"""
        world = World(ndim=case['ndim'], layout='AAAAB', frames=1, L=case['L'])
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(300)
            resource.setrlimit(resource.RLIMIT_CPU, (15, 15))   # of computing time
            status = 1
            try:
                c = self.build('sk', world, {'kmin': -1.0, 'kmax': case['kmax'], 'ksamples': case['ksamples'], 'dk': 0.1, 'nk': 4})
                c.compute()
                vectors = [tuple(v) for shell in c.kvectors for v in shell]
                status = 0 if len(vectors) == len(set(vectors)) and all(c.kvectors) else 1
            finally:
                os._exit(status)
        _, status = os.waitpid(pid, 0)
        self.calls += 1
        if os.WIFSIGNALED(status):
            raise Violation('the setup of the wave-vectors does not terminate')
        if status != 0:
            raise Violation('the wave-vectors of a dense grid are not distinct, or cannot be computed')
        self.compared += 1

    def user(self, case):
        ndim, first = case['ndim'], case['first']
        world = World(ndim=ndim, layout='AABBB'[:5] if ndim != 2 else 'AAABBB', frames=1, cell=case['cell'])
        k0 = 2 * math.pi / world.side[0]
        m = {1: 3, 2: 2, 3: 1, 4: 1}[ndim]
        cube = list(itertools.product(range(-m, m + 1), repeat=ndim))
        if ndim == 4:
            cube = cube[::9]
        shells = [[[first]]] + [[[first], [list(b)]] for b in cube] + [[[first, list(b)]] for b in cube if list(b) != first]
        for n, s in enumerate(shells):
            wanted = [[list(numpy.array(k) * k0) for k in shell] for shell in s]
            names = ['sk'] + (['skfast', 'fsktlegacy', 'fskt', 'fkt'][n % 4:][:1] if n % 5 == 0 else [])
            for name in names:
                th = world.trajectory()
                if name in build.FOURIER_TIME:
                    c = build.cls(name)(th, tgrid=[0.0])
                else:
                    c = build.cls(name)(th)
                c.kvectors = [[numpy.array(k) for k in shell] for shell in wanted]
                for when in ('before', 'after'):
                    if when == 'after':
                        if n % (1 if self.thorough else 4):
                            break
                        c.compute()
                        self.calls += 1
                    got = c.kvectors
                    if len(got) != len(wanted) or not all(close(a, b, atol=1e-9) for a, b in zip(got, wanted)):
                        raise Violation('%s: user-defined wave-vectors %s are not used as they are, %s compute(): %s' % (
                            name, s, when, [[list(numpy.array(v) / k0) for v in x] for x in got]))
                    means = [numpy.mean([math.sqrt(float(numpy.dot(v, v))) for v in shell]) for shell in wanted]
                    if not close(c.kgrid, means, atol=1e-9):
                        raise Violation('%s: kgrid %s of user-defined vectors, should be %s' % (name, c.kgrid, means))
                self.compared += 1
                self.outcome(s)
