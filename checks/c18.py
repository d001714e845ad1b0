"""
C18: command line and API options reach the calculation and mean the same.

Space: for each of the 12 high-level functions, all combinations of a bounded number
of options (of the function and global ones) deviating from their defaults, through
the Python interface and through the command line.  The reference is the calculation
by hand: the selection of frames, centering and relabeling are carried out in the
data, and the library is called directly with parameters spelled out here.
"""
import os
import runpy
import shutil
import signal
import sys
from mc.engine import Check as Base, Violation, deviations
from mc.env import REPO, scratch_root
from checks.c15 import parse
from checks.c16 import same_table
from mc.worlds import World

TIME = {'tmax': [None, 12.0, 1e6, 0.0], 'tmax_fraction': [None, 0.3, 1.0, -1.0], 'tsamples': [None, 4, 11], 'func': [None, 'linear', 'logx', 'logx_grid']}
GRID = {'nk': [None, 2], 'dk': [None, 0.4], 'kgrid': [None, '1.3', '2.4,1.3']}
OPTIONS = {
    'msd': dict(TIME, sigma=[None, 0.4], rmsd_max=[None, 0.8], fix_cm=[None, True], no_offset=[None, True]),
    'vacf': TIME,
    'alpha2': TIME,
    'qst': TIME,
    'qt': TIME,
    'chi4qs': dict(TIME, a=[None, 0.5], total=[None, True]),
    'fkt': dict(TIME, **dict(GRID, nk=[4, None, 2], kmin=[None, 2.0], kmax=[None, 5.5], ksamples=[None, 3], fix_cm=[None, True], total=[None, True])),
    'fskt': dict(TIME, **dict(GRID, kmin=[None, 2.0], kmax=[None, 5.5], ksamples=[None, 3], fix_cm=[None, True], total=[None, True],
                              lookup_mb=[None, 1.0])),
    'gr': {'dr': [None, 0.3], 'grandcanonical': [None, True], 'ndim': [None, 3], 'rmax': [None, 1.4]},
    'sk': dict(GRID, kmin=[None, 2.0], kmax=[4.0, None, 5.0], ksamples=[3, None, 5], weight=[None, 'charge'], weight_trajectory=[None, 'other'],
               weight_fluctuations=[None, True]),
    'ik': dict(GRID, kmin=[None, 2.0], kmax=[4.0, None, 5.0], ksamples=[3, None, 5], trajectory_radius=[None, 'other']),
    'ba': {'dtheta': [20.0, None, 15.0], 'grandcanonical': [None, True]},
}
GLOBAL = {
    'first': [None, 2, 0.4], 'last': [None, 5, 0.7, -1], 'skip': [None, 2], 'center': [None, True], 'species_layout': [None, 'C', 'F', 'A'],
    'norigins': [None, '0.5', '3', '-1', '1'], 'fast': [None, True], 'legacy': [None, True], 'no_cache': [None, True],
    'no_partial': [None, True], 'filter': [None, 'species == "A"', 'mass > 1.2', 'charge > 0.0'], 'fmt': [None, 'xyz'],
    'output': [None, '{folder}/out/{symbol}.{tag}.dat', 'bare'], 'files': [1, 2],
    'world': ['plain', 'single', 'blocks', 'osc', 'fine', 'C', 'image'], 'verbosity': [None, 'quiet', 'verbose', 'debug'],
}
# Default parameters, as documented by the command line help
TMAX_FRACTION = {'vacf': 0.10}
TSAMPLES = {'msd': 30, 'vacf': 30}
FUNC = {'msd': 'linear', 'vacf': 'linear'}
INERT = {'verbosity', 'no_cache', 'fmt', 'grandcanonical', 'ndim', 'lookup_mb'}
FAMILY = {
    'time': ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4qs', 'fkt', 'fskt'],
    'filter': ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4qs', 'fkt', 'fskt', 'gr', 'sk', 'ba'],
}


class Check(Base):

    pid = 'C18'
    technique = ('exhaustive enumeration of bounded combinations of options, run through the Python interface and the command line, '
                 'compared with the calculation by hand on data prepared by hand')
    bounds = ('12 functions x all combinations of <=2 (thorough: 3) non-default options, out of 4..12 options of the function and 16 '
              'global ones, two calling modes (quick: pairs with one value per option, alternating between the two modes)')
    assumptions = ['the time grid is [0] + func(timestep, tmax, tsamples)', 'frames first/last are rounded down to whole blocks',
                   'the maximum root mean squared displacement is used when no time grid is requested (tmax_fraction<=0)',
                   'spectral densities cannot be filtered']

    def setup(self):
        self.tmp = scratch_root()

    def cases(self):
        for name, options in OPTIONS.items():
            axes = dict(options)
            axes.update(GLOBAL)
            n = 0
            for case in deviations(axes, 3 if self.thorough else 2):
                case = {k: v for k, v in case.items() if v is not None}
                if not self.meaningful(name, case):
                    continue
                n += 1
                changed = [k for k, v in axes.items() if case.get(k) != v[0]]
                dev = len(changed)
                # Options without effect on the results are combined with others in the thorough tier only
                if dev >= 2 and not self.thorough and set(changed) & INERT:
                    continue
                # Likewise, pairs of options other than the data use one value each
                if dev >= 2 and not self.thorough and any(case.get(k) != axes[k][1] for k in changed if k not in ('world', 'first', 'last')):
                    continue
                for mode in ('api', 'cli'):
                    if mode == 'api' and ('output' in case or 'verbosity' in case):
                        continue
                    # Pairs are shared between the two modes, except those where they may interfere
                    if dev >= 2 and not self.thorough and (n % 2 == 0) == (mode == 'api') and 'output' not in case:
                        continue
                    yield dict(case, name=name, mode=mode)

    @staticmethod
    def meaningful(name, case):
        if name == 'ik' and ('filter' in case or case['world'] == 'osc'):
            return False
        if case['world'] == 'osc' and 'center' in case and name in FAMILY['time']:
            # Displacements in a cell that changes depend on the origin
            return False
        if name != 'sk' and 'fast' in case and name != 'chi4qs':
            return 'fast' in case and len(case) <= 3
        if 'weight_trajectory' in case and ('first' in case or 'last' in case or 'skip' in case):
            return False
        if name == 'sk' and ('weight_trajectory' in case or 'weight_fluctuations' in case) and 'weight' not in case:
            # A weight needs a field
            return 'weight_trajectory' not in case
        if case.get('filter', '').startswith('species') and case['world'] in ('single', 'C'):
            return False
        if case.get('filter', '').startswith('species') and case.get('species_layout') in ('C', 'F'):
            return False
        if name in ('sk', 'ik') and 'ksamples' not in case and 'kgrid' not in case and 'kmax' in case:
            # Too many shells for the available wave-vectors (cf. C07)
            return False
        if name == 'msd' and 'rmsd_max' in case and case.get('tmax_fraction', 0.75) > 0:
            return False
        return True

    # Data

    def world(self, case, second=False, different=False):
        spec = {'layout': 'AABABBABAB', 'frames': 8, 'masses': 'mixed', 'timestep': 0.5, 'amp': 0.15, 'seed': int(second)}
        spec.update({'plain': {}, 'single': {'layout': 'A' * 8}, 'blocks': {'steps': 'log4', 'frames': 9}, 'osc': {'cell': 'osc'},
                     'fine': {'timestep': 0.002, 'steps': 'lin1'}, 'C': {'species': 'C'},
                     'image': {'images': 1}}[case['world']])
        if case['name'] == 'ba':
            # Enough particles to determine the default cutoffs
            spec.update(layout='A' * 24 if case['world'] == 'single' else 'AABB' * 9, L=4.0)
        if case['name'] in ('qt', 'qst', 'chi4qs'):
            spec.update(amp=0.08)
        if different and 'weight_trajectory' not in case and 'trajectory_radius' not in case:
            # Files that have little in common
            spec.update(L=spec.get('L', 5.0) * 1.06, timestep=spec['timestep'] * 1.5)
            if case['world'] != 'blocks':
                spec.update(frames=spec['frames'] + 1)
            if case['world'] == 'plain' and 'species_layout' not in case and case['name'] != 'ba':
                spec.update(layout='AABABBACCB')
        return World(spec)

    def frames(self, case, world):
        n = world.frames
        first, last = case.get('first'), case.get('last')
        if first is not None and 0 < first < 1:
            first = int(first * n)
        if last is not None and 0 < last < 1:
            last = int(last * n)
        if case['world'] == 'blocks':
            block = 4
            first = first // block * block if first is not None else None
            last = last // block * block if last is not None else None
        return list(range(n))[first:last:case.get('skip')]

    def prepare(self, case, world, path):
        """Data on which options like the selection of frames have been applied by hand"""
        keep = self.frames(case, world)
        new = World(world.spec)
        for attr in ('pos', 'unw', 'vel', 'side', 'species', 'field', 'index'):
            value = getattr(world, attr)
            setattr(new, attr, [value[i] for i in keep])
        new.steps = [world.steps[i] for i in keep]
        new.frames = len(keep)
        new.radius = world.radius
        if case.get('center'):
            new.pos = [x - s / 2.0 for x, s in zip(new.pos, new.side)]
        layout = case.get('species_layout')
        if layout is not None:
            names = sorted({x for s in new.species for x in s})
            change = {'A': 'AB', 'C': '01', 'F': '12'}[layout]
            new.species = [[change[names.index(x)] for x in s] for s in new.species]
        new.write_xyz(path)
        return new

    # Calculation by hand

    def tgrid(self, case, world):
        from atooms.postprocessing.helpers import linear_grid, logx_grid
        name = case['name']
        func = case.get('func', FUNC.get(name, 'logx'))
        func = linear_grid if func == 'linear' else logx_grid
        samples = case.get('tsamples', TSAMPLES.get(name, 60))
        total = (world.steps[-1] - world.steps[0]) * world.timestep
        if case.get('tmax', -1.0) > 0:
            tmax = case['tmax']
            if name in ('msd', 'vacf', 'chi4qs'):
                tmax = min(tmax, total)
            return [0.0] + func(world.timestep, tmax, samples)
        fraction = case.get('tmax_fraction', TMAX_FRACTION.get(name, 0.75))
        if fraction > 0:
            return [0.0] + func(world.timestep, fraction * total, samples)
        return None

    def by_hand(self, case, path, world, other):
        import atooms.postprocessing as pp
        from atooms.postprocessing.filter import Filter
        from atooms.postprocessing.helpers import linear_grid
        from atooms.postprocessing.partial import Partial
        from atooms.trajectory import Trajectory as Reader
        name = case['name']

        def Trajectory(*args, **kwargs):
            th = Reader(*args, **kwargs)
            if case['world'] == 'blocks' and 'skip' not in case:
                # The periodicity is the one of the file, even if only one period is left
                th.block_size = 4
            return th

        norigins = case.get('norigins')
        args, kwargs = (), {'norigins': norigins}
        if name in FAMILY['time'] and name not in ('fkt', 'fskt'):
            kwargs['tgrid'] = self.tgrid(case, world)
        if name == 'msd':
            cls = pp.MeanSquareDisplacement
            kwargs.update(sigma=case.get('sigma', 1.0), rmax=case.get('rmsd_max', -1.0), no_offset=case.get('no_offset', False),
                          fix_cm=case.get('fix_cm', False))
        elif name in ('vacf', 'alpha2', 'qst', 'qt'):
            cls = {'vacf': pp.VelocityAutocorrelation, 'alpha2': pp.NonGaussianParameter, 'qst': pp.SelfOverlap,
                   'qt': pp.CollectiveOverlap}[name]
        elif name == 'chi4qs':
            cls = pp.Chi4SelfOverlapOptimized if case.get('fast') else pp.Chi4SelfOverlap
            kwargs['a'] = case.get('a', 0.3)
        elif name in ('fkt', 'fskt'):
            cls = pp.IntermediateScattering
            kwargs.update(nk=case.get('nk', 100), dk=case.get('dk', 0.1), fix_cm=case.get('fix_cm', False))
            kmax = 7.0
            if name == 'fskt':
                cls = pp.SelfIntermediateScatteringLegacy if case.get('legacy') else pp.SelfIntermediateScatteringFast
                kwargs.update(nk=case.get('nk', 8), lookup_mb=case.get('lookup_mb', 64.0))
                kmax = 8.0
            if 'kgrid' in case:
                kgrid = [float(x) for x in case['kgrid'].split(',')]
            else:
                kgrid = linear_grid(case.get('kmin', 7.0), case.get('kmax', kmax), case.get('ksamples', 1))
            kwargs.update(kgrid=kgrid, tgrid=self.tgrid(case, world))
        elif name == 'gr':
            cls = pp.RadialDistributionFunctionLegacy if case.get('legacy') else pp.RadialDistributionFunctionFast
            kwargs.update(dr=case.get('dr', 0.04), rmax=case.get('rmax', -1.0))
        elif name in ('sk', 'ik'):
            cls = pp.StructureFactorFast if case.get('fast') else pp.StructureFactorLegacy
            if name == 'ik':
                cls = pp.SpectralDensity
                args = (other if 'trajectory_radius' in case else path,)
            kgrid = None
            if 'kgrid' in case:
                kgrid = [float(x) for x in case['kgrid'].split(',')]
            kwargs.update(kgrid=kgrid, nk=case.get('nk', 20), dk=case.get('dk', 0.1), kmin=case.get('kmin', -1.0),
                          kmax=case.get('kmax', 15.0), ksamples=case.get('ksamples', 30))
        elif name == 'ba':
            cls = pp.BondAngleDistribution
            kwargs.update(dtheta=case.get('dtheta', 4.0))
        species = sorted({x for s in world.species for x in s})
        partial = len(species) > 1 and not case.get('no_partial') and 'filter' not in case and name != 'ik'
        total = True
        if name in ('fkt', 'fskt', 'chi4qs'):
            total = len(species) == 1 or case.get('total', False) or 'filter' in case
            if name == 'chi4qs' and case.get('total'):
                partial = False
        objects = []
        if total:
            cf = cls(Trajectory(path, fmt='xyz'), *args, **kwargs)
            if 'filter' in case:
                cf = Filter(cf, case['filter'])
            objects.append(cf)
        if partial:
            objects.append(Partial(cls, species, Trajectory(path, fmt='xyz'), *args, **kwargs))
        for cf in objects:
            if 'weight' in case:
                th = Trajectory(other, fmt='xyz') if 'weight_trajectory' in case else None
                cf.add_weight(trajectory=th, field=case['weight'], fluctuations=case.get('weight_fluctuations', False))
            cf.do()

    # The library

    def options(self, case):
        out = {k: v for k, v in case.items() if k not in ('name', 'mode', 'files', 'world', 'verbosity')}
        return out

    def through_api(self, case, paths, other):
        import inspect
        import atooms.postprocessing.api as api
        func = getattr(api, case['name'])
        kwargs = self.options(case)
        for key in ('weight_trajectory', 'trajectory_radius'):
            if key in kwargs:
                kwargs[key] = other
        if len(paths) == 1:
            func(paths[0], **kwargs)
        else:
            # Further files follow the positional arguments
            args = []
            for x in list(inspect.signature(func).parameters.values())[1:]:
                if x.kind == x.POSITIONAL_OR_KEYWORD:
                    args.append(kwargs.pop(x.name, x.default))
            func(paths[0], *args, *paths[1:], **kwargs)

    def through_cli(self, case, paths, other, folder):
        before, after = [], []
        for key, value in self.options(case).items():
            if key in ('weight_trajectory', 'trajectory_radius'):
                value = other
            if key == 'output':
                value = value.replace('{folder}', folder)
                if value == 'bare':
                    value = '{trajectory.filename}-{symbol}-{tag}'
            flag = '--' + key.replace('_', '-')
            arg = [flag] if value is True else ['%s=%s' % (flag, value)]
            if key in GLOBAL:
                before += arg
            else:
                after += arg
        if 'verbosity' in case:
            before.append('--' + case['verbosity'])
        argv = ['pp.py'] + before + [case['name']] + after + paths
        pid = os.fork()
        if pid == 0:
            code = 1
            signal.alarm(200)
            try:
                null = os.open('/dev/null', os.O_RDWR)
                os.dup2(null, 1)
                err = os.open(os.path.join(os.path.dirname(folder), 'stderr-%d' % os.getppid()), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                os.dup2(err, 2)
                sys.stdout = os.fdopen(1, 'w')
                sys.stderr = os.fdopen(2, 'w')
                sys.argv = argv
                runpy.run_path(os.path.join(REPO, 'bin', 'pp.py'), run_name='__main__')
                code = 0
            except SystemExit as exc:
                code = 0 if exc.code in (0, None) else 2
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                try:
                    sys.stderr.flush()
                finally:
                    os._exit(code)
        _, status = os.waitpid(pid, 0)
        log = os.path.join(os.path.dirname(folder), 'stderr-%d' % os.getpid())
        with open(log) as fh:
            error = fh.read()
        os.remove(log)
        if os.WEXITSTATUS(status) != 0:
            raise Failure('%s failed with %d: %s' % (' '.join(argv), os.WEXITSTATUS(status), error[-400:]))

    def listing(self, folder, inputs):
        out = {}
        for root, _, files in os.walk(folder):
            for f in files:
                path = os.path.join(root, f)
                if f not in inputs:
                    with open(path) as fh:
                        out[os.path.relpath(path, folder)] = fh.read()
        return out

    def run(self, case):
        base = os.path.join(self.tmp, 'case-%d' % os.getpid())
        if os.path.exists(base):
            shutil.rmtree(base)
        mine, theirs = os.path.join(base, 'mine'), os.path.join(base, 'theirs')
        os.makedirs(mine)
        os.makedirs(theirs)
        try:
            self.compare(case, mine, theirs)
        finally:
            shutil.rmtree(base)

    def compare(self, case, mine, theirs):
        import atooms.postprocessing.core as core
        names = ['one.xyz', 'two.xyz'][:case['files']]
        paths = []
        other = self.world(case, second=True)
        other.radius = other.radius * 1.1
        for folder in (mine, theirs):
            if folder == mine and 'trajectory_radius' in case and self.frames(case, other) != list(range(other.frames)):
                self.prepare(case, other, os.path.join(folder, 'other.xyz'))
            else:
                other.write_xyz(os.path.join(folder, 'other.xyz'))
        failed = None
        default = core.pp_output_path
        try:
            if 'output' in case:
                core.pp_output_path = {'bare': '{trajectory.filename}-{symbol}-{tag}'}.get(
                    case['output'], case['output'].replace('{folder}', mine))
            for i, f in enumerate(names):
                world = self.world(case, second=i == 1, different=i == 1)
                path = os.path.join(theirs, f)
                world.write_xyz(path)
                paths.append(path)
                prepared = self.prepare(case, world, os.path.join(mine, f))
                try:
                    self.by_hand(case, os.path.join(mine, f), prepared, os.path.join(mine, 'other.xyz'))
                except TimeoutError:
                    raise
                except Exception as exc:
                    failed = exc
                    break
        finally:
            core.pp_output_path = default
        error = None
        try:
            if case['mode'] == 'api':
                self.through_api(case, paths + [os.path.join(theirs, x) for x in names[len(paths):]], os.path.join(theirs, 'other.xyz'))
            else:
                self.through_cli(case, paths, os.path.join(theirs, 'other.xyz'), theirs)
        except TimeoutError:
            raise
        except Exception as exc:
            error = exc
        self.calls += 1
        if failed is not None:
            if error is None:
                raise Violation('should fail with %r' % failed)
            self.failures = getattr(self, 'failures', 0) + 1
            self.outcome('failure', case['name'], type(failed).__name__)
            return
        if error is not None:
            raise Violation('fails with %r although the calculation by hand does not' % error)
        expected = self.listing(mine, names + ['other.xyz'])
        got = self.listing(theirs, names + ['other.xyz'])
        if set(expected) != set(got):
            raise Violation('files %s instead of %s' % (sorted(got), sorted(expected)))
        if not expected and not (case['name'] in ('fkt', 'fskt', 'chi4qs') and case.get('no_partial')):
            raise RuntimeError('no files')
        for f in expected:
            if not same_table(expected[f], got[f]):
                raise Violation('%s contains %s instead of %s' % (f, got[f][:600], expected[f][:600]))
            a, b = [[x for x in parse(t[f])[0] if x.startswith('# title') or x.startswith('# columns')] for t in (expected, got)]
            if a != b:
                raise Violation('%s has header %s instead of %s' % (f, b, a))
            self.compared += 1
        self.outcome(case['name'], sorted(expected.items()))


class Failure(Exception):
    pass
