"""
C24: user-defined correlation functions get the phase space they ask for.

Space, part A: the arrays (documented in the base class and in the docs) that a user's
subclass of Correlation finds in _compute(), for one and two bodies, every set of
variables in every form accepted for `phasespace`, filters, center of mass, storage of
the trajectory, cells, particles changing species or coming and going, repeated
computations: all configurations within a bounded number of deviations from the default
one, against the known paths.
Part B: the recipes of the docs for static and dynamic correlation functions, alone,
through filters, Partial and Filter, computed, written, updated and read back.
"""
import itertools
import os
import shutil
import numpy
from mc import ref
from mc.engine import Check as Base, Violation, deviations
from mc.env import scratch_root
from mc.worlds import World, close
from checks.c15 import parse

VARIABLES = ['pos', 'vel', 'pos-unf']
FILTERS = {
    1: ['none', 'A', 'B', 'fast'],
    2: ['none', 'A', 'A,B', 'B,A', 'fast', 'A,fast', 'fast,B', 'A,A', 'all,B'],
}


def forms():
    out = ['default', ['pos'], ['vel'], ['pos-unf'], 'pos', 'vel', 'pos-unf']
    for n in (2, 3):
        for x in itertools.permutations(VARIABLES, n):
            out.append(list(x))
    return out + ['tuple', 'twice']


def keep(system, what):
    from atooms.system import System
    if what == 'all':
        return system
    new = System(particle=[p for p in system.particle if (p.velocity[0] > -0.2 if what == 'fast' else p.species == what)],
                 cell=system.cell)
    return new


def predicate(world, what):
    if what == 'all':
        return lambda f, i: True
    if what == 'fast':
        return lambda f, i: world.vel[f][i][0] > -0.2
    return lambda f, i: world.species[f][i] == what


class Check(Base):

    pid = 'C24'
    technique = ('bounded exhaustive exploration: user-defined subclasses are run by the real code in every configuration within the bounds '
                 'and compared with the known paths of the particles')
    bounds = ('part A: 2 numbers of bodies x all subsets of variables in all orders and forms x filters x all configurations with <=2 (thorough: 3) deviations '
              'out of center of mass, storage, cell, dimensions, frames, cache, norigins, repetitions; part B: recipes of the docs, '
              'static and dynamic x filters, Partial, Filter x all configurations with <=3 (thorough: 4) deviations')
    assumptions = ['displacements per frame are below half the cell side', 'with a fixed center of mass, positions are defined up to a constant']

    def setup(self):
        self.tmp = scratch_root()

    def cases(self):
        axes = {
            'fix_cm': [False, True],
            'storage': ['center', 'corner', 'unfolded_attr', 'images', 'file', 'path'],
            'cell': ['cubic', 'ortho', 'var', 'osc'],
            'ndim': [3, 2],
            'frames': [4, 1, 6],
            'nvar': ['none', 'swap', 'gc'],
            'cache': [False, True],
            'repeat': [1, 2],
            'drift': [0.0, 0.07],
            'norigins': [None, 1, -1],
        }
        for case in deviations(axes, 3 if self.thorough else 2):
            for nbodies in (1, 2):
                for form in forms():
                    for what in FILTERS[nbodies]:
                        if not self.thorough and form not in ('default', ['pos'], ['pos-unf'], ['vel', 'pos-unf', 'pos'], 'twice') and \
                           sum(case[k] != axes[k][0] for k in axes) == 2:
                            continue
                        yield dict(case, part='A', nbodies=nbodies, form=form, filter=what)
        axes = {
            'kind': ['dynamic', 'dynamic-unf', 'static', 'static-two'],
            'how': ['compute', 'do', 'update', 'again'],
            'through': ['nothing', 'Partial', 'Filter', 'filter'],
            'norigins': [-1, None, '1', 2, 0.5],
            'steps': ['lin10', 'log4', 'off', 'log3', 'irr'],
            'frames': [6, 2, 9, 12],
            'timestep': [1.0, 0.5],
            'ndim': [3, 2],
            'storage': ['center', 'unfolded_attr', 'file', 'path'],
            'seed': [0, 1],
        }
        for case in deviations(axes, 4 if self.thorough else 3):
            yield dict(case, part='B')

    def world(self, case, **kwargs):
        storage = case['storage']
        return World(layout='AABABBABAB', ndim=case['ndim'], frames=case['frames'], cell=case.get('cell', 'cubic'),
                     nvar=case.get('nvar', 'none'), drift=case.get('drift', 0.0),
                     masses='one' if storage in ('file', 'path') else 'mixed',
                     origin='corner' if storage == 'corner' else 'center', images=1 if storage == 'images' else 0,
                     unfolded_attr=storage == 'unfolded_attr', **kwargs)

    def run(self, case):
        folder = os.path.join(self.tmp, 'case-%d' % os.getpid())
        if os.path.exists(folder):
            shutil.rmtree(folder)
        os.mkdir(folder)
        try:
            if case['part'] == 'A':
                self.arrays(case, folder)
            else:
                self.recipe(case, folder)
        finally:
            shutil.rmtree(folder)

    def trajectory(self, case, world, folder):
        if case['storage'] in ('file', 'path'):
            from atooms.trajectory import Trajectory
            path = world.write_xyz(os.path.join(folder, 'traj.xyz'))
            return path if case['storage'] == 'path' else Trajectory(path)
        return world.trajectory(os.path.join(folder, 'traj.world'), cache=case.get('cache', False))

    # Part A

    def arrays(self, case, folder):
        from atooms.postprocessing.correlation import Correlation
        if case['storage'] in ('file', 'path') and case['cache']:
            return
        world = self.world(case)
        form = case['form']
        groups = [] if case['filter'] == 'none' else case['filter'].split(',')
        if not world.dumpable(None, *[predicate(world, x) for x in groups]):
            return
        variables = VARIABLES if form in ('default', 'tuple') else ['pos-unf', 'pos', 'pos-unf'] if form == 'twice' else [form] if isinstance(form, str) else form
        moving = 'pos-unf' in variables or case['fix_cm']
        if moving and (case['nvar'] == 'gc' or case['cell'] != 'cubic' and case['cell'] != 'ortho'):
            # Unfolding is not defined
            return
        collected = []

        class User(Correlation):

            symbol = 'user'
            short_name = 'U(x)'
            long_name = 'user defined function'
            nbodies = case['nbodies']

            def __init__(self, trajectory, grid, **kwargs):
                super().__init__(trajectory, grid, **kwargs)
                if form == 'tuple':
                    self.phasespace = tuple(VARIABLES)
                elif form == 'twice':
                    self.phasespace = list(variables)
                elif form != 'default':
                    self.phasespace = list(form) if isinstance(form, list) else form

            def _compute(self):
                suffixes = [''] if self.nbodies == 1 else ['_0', '_1']
                out = {}
                for x in variables:
                    for i, s in enumerate(suffixes):
                        out[x, i] = [numpy.array(y, copy=True) for y in getattr(self, '_' + x.replace('-', '_') + s)]
                collected.append(out)
                self.value = [float(len(collected)) for _ in self.grid]

        th = self.trajectory(case, world, folder)
        c = User(th, [0.0, 1.0], norigins=case['norigins'], fix_cm=case['fix_cm'])
        for x in groups:
            c.add_filter(keep, x)
        for _ in range(case['repeat']):
            grid, value = c.compute()
            self.calls += 1
        if list(value) != [float(case['repeat'])] * 2 or list(grid) != [0.0, 1.0]:
            raise Violation('compute() returned %s, %s' % (grid, value))
        if len(collected) != case['repeat']:
            raise Violation('_compute() was called %d times' % len(collected))
        if len(groups) == 1 and case['nbodies'] == 2:
            groups = groups * 2
        for out in collected:
            for x in variables:
                for i in range(case['nbodies']):
                    expected = self.expected(world, x, groups[i] if groups else 'all', case['fix_cm'])
                    self.match(world, x, i, out[x, i], expected, groups[i] if groups else 'all', case['fix_cm'])
                    self.compared += 1
        self.outcome(variables, case['filter'], case['nbodies'], case['storage'], case['fix_cm'])

    @staticmethod
    def expected(world, what, group, fix_cm):
        select = [world.select(f, predicate(world, group)) for f in range(world.frames)]
        if what == 'vel':
            return [world.vel[f][select[f]] for f in range(world.frames)]
        if what == 'pos' and not fix_cm:
            return [world.pos[f][select[f]] for f in range(world.frames)]
        if world.spec['unfolded_attr'] and what == 'pos-unf':
            path = world.unw
        else:
            path = [world.pos[0] + world.unw[f] - world.unw[0] for f in range(world.frames)]
        if fix_cm:
            m = world.mass
            path = [x - numpy.sum(m[:, None] * x, axis=0) / m.sum() for x in path]
        return [path[f][select[f]] for f in range(world.frames)]

    @staticmethod
    def match(world, what, i, got, expected, group, fix_cm):
        where = '%s of group %d (%s)' % (what, i, group)
        if len(got) != len(expected):
            raise Violation('%s: %d frames instead of %d' % (where, len(got), len(expected)))
        for f, (x, y) in enumerate(zip(got, expected)):
            if x.shape != y.shape and not (len(x) == 0 and len(y) == 0):
                raise Violation('%s: shape %s instead of %s in frame %d' % (where, x.shape, y.shape, f))
            if len(y) == 0:
                continue
            delta = x - y
            if what == 'pos' and fix_cm:
                # Up to a constant and lattice vectors
                delta = delta - (got[f][0] - expected[f][0])
                delta = delta - numpy.rint(delta / world.side[f]) * world.side[f]
                shift = (got[f][0] - expected[f][0]) / world.side[f] * 2
                if numpy.max(abs(shift - numpy.rint(shift))) > 1e-8:
                    raise Violation('%s: displaced by %s in frame %d' % (where, shift / 2, f))
            if numpy.max(abs(delta)) > 1e-8:
                raise Violation('%s: %s instead of %s in frame %d' % (where, x.tolist(), y.tolist(), f))

    # Part B

    def recipe(self, case, folder):
        from atooms.postprocessing.correlation import Correlation
        from atooms.postprocessing.helpers import setup_t_grid
        from atooms.postprocessing.partial import Partial
        from atooms.postprocessing.filter import Filter
        from collections import defaultdict
        world = self.world(case, steps=case['steps'], timestep=case['timestep'], seed=case['seed'])
        if not world.dumpable(None, 'A', 'B'):
            return
        kind = case['kind']

        class Static(Correlation):

            symbol, short_name, long_name = 'user', 'U(x)', 'static function'
            nbodies = 1

            def __init__(self, trajectory, grid, norigins=None):
                super().__init__(trajectory, grid, norigins=norigins)
                self.phasespace = ['pos']

            def _compute(self):
                raw = []
                for i in range(len(self._pos)):
                    raw.append([numpy.mean(numpy.minimum(numpy.abs(self._pos[i]), x)) for x in self.grid])
                self.value = numpy.array(raw).mean(axis=0)

        class StaticTwo(Static):

            nbodies = 2
            _symmetric = False

            def _compute(self):
                raw = []
                for a, b in zip(self._pos_0, self._pos_1):
                    raw.append([numpy.mean([min(numpy.mean(abs(x - y)), g) * max(0.0, x[0] - y[0]) for x in a for y in b]) for g in self.grid])
                self.value = numpy.array(raw).mean(axis=0)

        class Dynamic(Correlation):

            symbol, short_name, long_name = 'user', 'U(t)', 'dynamic function'

            def __init__(self, trajectory, tgrid, norigins=None):
                Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
                self.phasespace = ['vel'] if kind == 'dynamic' else ['pos-unf']
                self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=not ref.single_origin(norigins))

            def _compute(self):
                raw = defaultdict(list)
                data = self._vel if kind == 'dynamic' else self._pos_unf
                for offset, t in self._discrete_tgrid:
                    for t_0 in range(offset, len(data) - t, self.skip):
                        dt = self.trajectory.steps[t_0 + t] - self.trajectory.steps[t_0]
                        raw[dt].append(numpy.mean(abs(data[t_0 + t] - data[t_0])))
                self.grid = [dt * self.trajectory.timestep for dt in sorted(raw)]
                self.value = [numpy.mean(raw[dt]) for dt in sorted(raw)]

        cls = {'static': Static, 'static-two': StaticTwo}.get(kind, Dynamic)
        total = world.total_time()
        grid = [0.0, total * 0.21, total * 0.5, total] if kind.startswith('dynamic') else [0.3, 1.1]
        if case['frames'] == 2 and kind.startswith('dynamic'):
            grid = [0.0, total]
        through = case['through']
        if through == 'Filter' and kind == 'static-two':
            condition = 'species == "A", species == "B"'
        else:
            condition = 'species == "A"'

        def new(th):
            c = None
            if through == 'Partial':
                return Partial(cls, ['A', 'B'], th, list(grid), norigins=case['norigins'])
            c = cls(th, list(grid), norigins=case['norigins'])
            if through == 'Filter':
                c = Filter(c, condition)
            elif through == 'filter':
                c.add_filter(keep, 'A')
                if kind == 'static-two':
                    c.add_filter(keep, 'B')
                c.tag = 'mine'
            return c

        def parts(c):
            if through == 'Partial':
                return {k: c.partial[k] for k in c.partial}
            if through == 'nothing':
                return {('all', 'all') if kind == 'static-two' else 'all': c}
            return {('A', 'B') if kind == 'static-two' else 'A': c}

        th = self.trajectory(case, world, folder)
        if case['storage'] not in ('file', 'path'):
            with open(os.path.join(folder, 'traj.world'), 'w') as fh:
                fh.write('trajectory')
        source = os.path.join(folder, 'traj.world' if case['storage'] not in ('file', 'path') else 'traj.xyz')
        os.utime(source, (1000000000, 1000000000))
        c = new(th)
        if case['how'] == 'compute':
            c.compute()
        elif case['how'] == 'do':
            c.do()
        elif case['how'] == 'again':
            c.compute()
            c.do()
        else:
            c.do()
            c = new(th)
            c.do(update=True)
        self.calls += 1
        expected_files = {os.path.basename(source)}
        for group, part in parts(c).items():
            x, y = self.model(case, world, kind, group, grid)
            tolerance = 1e-9 if case['how'] != 'update' else 1e-5
            if not close(part.grid, x, rtol=tolerance, atol=tolerance):
                raise Violation('%s: grid %s instead of %s' % (group, list(part.grid), x))
            if not close(part.value, y, rtol=tolerance, atol=tolerance):
                raise Violation('%s: values %s instead of %s' % (group, list(part.value), y))
            if case['how'] == 'compute':
                continue
            tag = {'Partial': '.' + (group if isinstance(group, str) else '-'.join(group)), 'nothing': '',
                   'filter': '.mine', 'Filter': '.speciesA' if kind != 'static-two' else '.speciesA-speciesB'}[through]
            name = os.path.basename(source) + '.pp.user' + tag
            expected_files.add(name)
            path = os.path.join(folder, name)
            if not os.path.exists(path):
                raise Violation('%s was not written: %s' % (name, os.listdir(folder)))
            with open(path) as fh:
                rows = parse(fh.read())[1]
            if not close([r[0] for r in rows], x, rtol=1e-5, atol=1e-9) or not close([r[1] for r in rows], y, rtol=1e-5, atol=1e-9):
                raise Violation('%s contains %s instead of %s' % (name, rows, list(zip(x, y))))
            self.compared += 1
        if case['how'] != 'compute' and set(os.listdir(folder)) != expected_files:
            raise Violation('files %s instead of %s' % (sorted(os.listdir(folder)), sorted(expected_files)))
        self.outcome(kind, through, case['norigins'], case['steps'], case['frames'])

    def model(self, case, world, kind, group, grid):
        frames = range(world.frames)
        if kind == 'static':
            data = [world.pos[f][world.select(f, predicate(world, group))] for f in frames]
            return grid, [float(numpy.mean([numpy.mean(numpy.minimum(abs(x), g)) for x in data])) for g in grid]
        if kind == 'static-two':
            a, b = [[world.pos[f][world.select(f, predicate(world, g))] for f in frames] for g in group]
            return grid, [float(numpy.mean([numpy.mean([min(numpy.mean(abs(x - y)), g) * max(0.0, x[0] - y[0]) for x in a[f] for y in b[f]])
                                            for f in frames])) for g in grid]
        source = world.vel if kind == 'dynamic' else world.unw
        data = [source[f][world.select(f, predicate(world, group))] for f in frames]
        sel = ref.selected(world.steps, world.timestep, grid, not ref.single_origin(case['norigins']))
        skip = ref.interval(case['norigins'], world.steps, world.N)
        dts, values = ref.time_average(world.steps, sel, skip, lambda i, j: float(numpy.mean(abs(data[j] - data[i]))))
        return [t * world.timestep for t in dts], values
