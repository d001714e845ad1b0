"""
C01: one-body time correlations equal their definition, averaged over the
prescribed time origins.

Space: (A) every walk of 1-2 particles over a small alphabet of displacements
(zero, +-x, y, and a jump across two periodic boundaries), every norigins;
(B) generic worlds: all configurations with at most k deviations from the
default (dimension, particles, frames, sampling pattern, timestep, cell, storage
of the positions, norigins, time grid, parameters of the function, cache).
"""
import itertools
import numpy
from mc import ref
from mc.engine import Check as Base, Violation, deviations, product
from mc.worlds import World, close

FUNCS = ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'sacf']

MOVES = {2: [[0., 0.], [.2, 0.], [-.3, 0.], [0., .15], [.4, .45]],
         3: [[0., 0., 0.], [.3, -.1, .0], [.4, .45, -.45]]}


def make(func, th, tgrid, norigins, extra):
    import atooms.postprocessing as pp
    if func == 'msd':
        return pp.MeanSquareDisplacement(th, tgrid, norigins=norigins, **extra)
    if func == 'vacf':
        return pp.VelocityAutocorrelation(th, tgrid, norigins=norigins)
    if func == 'alpha2':
        return pp.NonGaussianParameter(th, tgrid, norigins=norigins)
    if func == 'qst':
        return pp.SelfOverlap(th, tgrid, norigins=norigins, **extra)
    if func == 'qt':
        return pp.CollectiveOverlap(th, tgrid, norigins=norigins, **extra)
    if func == 'sacf':
        from atooms.postprocessing.sacf import StressAutocorrelation
        return StressAutocorrelation(th, tgrid, norigins=norigins)
    raise KeyError(func)


def model(func, world, sel, skip, a=0.3, who=None):
    """Reference value; `who` selects particles by species"""
    idx = [world.select(f, who) for f in range(world.frames)]
    unw = [world.unw[f][idx[f]] for f in range(world.frames)]
    pos = [world.pos[f][idx[f]] for f in range(world.frames)]
    vel = [world.vel[f][idx[f]] for f in range(world.frames)]

    def f(i, j):
        if func == 'msd':
            return ref.msd(unw[j], unw[i])
        if func == 'vacf':
            return ref.vacf(vel[j], vel[i])
        if func == 'alpha2':
            return 0.0 if i == j else ref.alpha2(unw[j], unw[i])
        if func == 'qst':
            return ref.self_overlap(unw[j], unw[i], a) / len(unw[i])
        if func == 'qt':
            return ref.collective_overlap(pos[j], pos[i], a) / len(pos[i])
        if func == 'sacf':
            # Average over the off-diagonal components of the stress
            s = [[world.stress(f)[j, k] + sum(world.mass[p] * vel[f][p][j] * vel[f][p][k] for p in range(len(vel[f])))
                  for j in range(world.ndim) for k in range(j + 1, world.ndim)] for f in (i, j)]
            return sum(x * y for x, y in zip(*s)) / len(s[0]) / numpy.prod(world.side[0])
    return ref.time_average(world.steps, sel, skip, f)


def times(kind, world):
    total = world.total_time()
    first = world.steps[0]
    every = [(s - first) * world.timestep for s in world.steps]
    if kind == 'all':
        return every
    if kind == 'half':
        return every[:max(1, len(every) // 2)]
    if kind == 'sparse':
        return [0.0, total * 0.21, total * 0.49, total * 0.83]
    if kind == 'nozero':
        return every[1:] or [0.0]
    if kind == 'beyond':
        return [0.0, total * 0.3, total * 3]
    if kind == 'repeated':
        return [every[-1], every[-1], 0.0, every[len(every) // 2], 0.0]
    if kind == 'dense':
        return [total * i / 37. for i in range(38)]
    raise KeyError(kind)


class Check(Base):

    pid = 'C01'
    bounds = ('A: all walks (1 particle, 2D, 5 moves, 4 frames; 2 particles, 3D, 3 moves, 3 frames) x 6 functions x '
              'norigins {-1, "1", 2}; B: 6 functions x all configurations with at most 3 (thorough: 4) deviations '
              'from the default')
    assumptions = ['floating-point rounding below 1e-9 relative is not a difference',
                   'displacements per frame are below half the cell side (the condition under which unfolding is defined)']

    def cases(self):
        axes = {
            'tgrid': ['all', 'sparse', 'half', 'nozero', 'beyond', 'repeated', 'dense', 'default', 'rmax'],
            'norigins': [-1, None, '1', 2, 3, 0.5, '-1', '0.2', 0.34, '1.0', 5, 1],
            'ndim': [3, 2, 1, 4],
            'layout': ['AAAAA', 'A', 'AAAAAAA'],
            'frames': [6, 1, 2, 3, 9, 13],
            'steps': ['lin10', 'log4', 'log3', 'log2', 'off', 'logoff', 'irr', 'lin1', [0, 1, 2, 4, 8, 9, 10, 12, 16],
                      [0, 2, 3, 9, 11, 12, 18, 20]],
            'timestep': [1.0, 0.005, 2.5],
            'cell': ['cubic', 'ortho', 'long'],
            'storage': ['folded', 'corner', 'unfolded_attr', 'images'],
            'seed': [0, 1, 2],
            'cache': [False, True],
            'param': [0, 1, 2],
        }
        for case in deviations(axes, 4 if self.thorough else 3):
            if isinstance(case['steps'], list):
                if case['frames'] != 6:
                    continue
                case['frames'] = len(case['steps'])
            if len(case['layout']) == case['ndim']:
                continue
            for func in FUNCS:
                if func in ('vacf', 'sacf') and case['param']:
                    continue
                if func == 'sacf' and (case['ndim'] == 1 or case['tgrid'] in ('default', 'rmax')):
                    # There is no default time grid
                    continue
                yield dict(case, part='B', func=func)
        frames = 5 if self.thorough else 4
        for ndim, npart, nf in [(2, 1, frames), (3, 2, frames - 1)]:
            n = len(MOVES[ndim])
            for walk in itertools.product(range(n), repeat=npart * (nf - 1)):
                yield {'part': 'A', 'ndim': ndim, 'npart': npart, 'frames': nf, 'walk': list(walk)}

    def run(self, case):
        if case['part'] == 'A':
            return self.run_walk(case)
        storage = case['storage']
        world = World(ndim=case['ndim'], layout=case['layout'], frames=case['frames'], steps=case['steps'],
                      timestep=case['timestep'], cell=case['cell'], seed=case['seed'],
                      origin='corner' if storage == 'corner' else 'center',
                      images=1 if storage == 'images' else 0,
                      unfolded_attr=storage == 'unfolded_attr', stress=case['func'] == 'sacf', masses='mixed')
        extra, a = {}, 0.3
        if case['param']:
            if case['func'] in ('qst', 'qt'):
                a = [0.3, 0.8, 1.7][case['param']]
                extra = {'a': a}
            elif case['func'] == 'msd':
                extra = [{}, {'no_offset': True}, {'sigma': 0.3}][case['param']]
        if case['tgrid'] in ('default', 'rmax'):
            tgrid = None
            if case['tgrid'] == 'rmax':
                if case['func'] != 'msd':
                    return
                extra = dict(extra, rmax=0.9)
        else:
            tgrid = times(case['tgrid'], world)
        self.compare(case['func'], world, tgrid, case['norigins'], extra, a, case['cache'])

    def run_walk(self, case):
        ndim, npart, nf = case['ndim'], case['npart'], case['frames']
        moves = [[MOVES[ndim][case['walk'][f * npart + i]] for i in range(npart)] for f in range(nf - 1)]
        world = World(ndim=ndim, layout='A' * npart, frames=nf, walk=moves,
                      start=[[.45, -.41, .3][:ndim], [-.2, .1, .44][:ndim]][:npart], stress=True)
        for func in FUNCS:
            for norigins in [-1, '1', 2]:
                self.compare(func, world, times('all', world), norigins, {}, 0.3, False)

    def compare(self, func, world, tgrid, norigins, extra, a, cache):
        offset = not ref.single_origin(norigins) and not extra.get('no_offset', False)
        request = tgrid
        if tgrid is None:
            request = default(func, world, extra)
            if request is None:
                return
        sel = ref.selected(world.steps, world.timestep, request, offset)
        skip = ref.interval(norigins, world.steps, world.N)
        dts, expected = model(func, world, sel, skip, a)
        th = world.trajectory(cache=cache)
        corr = make(func, th, None if tgrid is None else list(tgrid), norigins, extra)
        grid, value = corr.compute()
        self.calls += 1
        if not close(grid, [t * world.timestep for t in dts]):
            raise Violation('%s: time grid %s, expected %s' % (func, list(grid), [t * world.timestep for t in dts]))
        if len(value) == len(expected):
            # the non-Gaussian parameter is not defined if no particle moves
            value = [x if y == y else y for x, y in zip(value, expected)]
        if not close(value, expected):
            raise Violation('%s: values %s, expected %s (norigins=%r)' % (func, list(value), expected, norigins))
        if corr.grid is not grid and not close(corr.grid, grid):
            raise Violation('%s: grid attribute differs from what compute() returned' % func)
        self.analysis(func, corr, world, extra)
        self.compared += 1
        self.outcome(func, numpy.round(expected, 6).tolist())

    def analysis(self, func, corr, world, extra):
        """Derived quantities, from the grid and values just checked"""
        if func not in ('msd', 'qst', 'alpha2'):
            return
        corr.analyze()
        t, y = [float(x) for x in corr.grid], [float(x) for x in corr.value]
        if func == 'alpha2':
            peak = peak_of(t, y)
            if peak is not None and not close([corr.analysis['t_star'], corr.analysis['a2_star']], peak, rtol=1e-6):
                raise Violation('alpha2: peak %s instead of %s' % (corr.analysis, peak))
            return
        level = extra.get('sigma', 1.0)**2 if func == 'msd' else 1 / numpy.e
        key = 'diffusive time tau_D' if func == 'msd' else 'tau'
        if any(abs(x - level) < 1e-9 for x in y):
            return
        cross = crossing(t, y, level)
        got = corr.analysis.get(key)
        if (got is None) != (cross is None) or (cross is not None and not close([got], [cross])):
            raise Violation('%s: %s is %s instead of %s' % (func, key, got, cross))
        if func == 'msd':
            pts = [(a, b) for a, b in zip(t, y) if b > level]
            got = corr.analysis.get('diffusion coefficient D')
            if len(pts) < 2:
                if got is not None:
                    raise Violation('msd: a diffusion coefficient from %d points' % len(pts))
                return
            ta, ya = sum(a for a, _ in pts) / len(pts), sum(b for _, b in pts) / len(pts)
            slope = sum((a - ta) * (b - ya) for a, b in pts) / sum((a - ta)**2 for a, _ in pts)
            if got is None or not close([got], [slope / (2 * world.ndim)], rtol=1e-6):
                raise Violation('msd: diffusion coefficient %s instead of %s' % (got, slope / (2 * world.ndim)))


def crossing(t, y, level):
    """First time at which the piecewise linear function crosses the level"""
    for i in range(1, len(y)):
        if (y[i - 1] < level < y[i]) or (y[i - 1] > level > y[i]):
            return t[i - 1] + (level - y[i - 1]) * (t[i] - t[i - 1]) / (y[i] - y[i - 1])
    return None


def peak_of(t, y):
    """Maximum, on the parabola through the largest value and its neighbors; None if ambiguous"""
    if any(x != x for x in y):
        return None
    order = sorted(y, reverse=True)
    if len(y) > 1 and order[0] - order[1] < 1e-7:
        return None
    i = y.index(order[0])
    if i in (0, len(y) - 1):
        return t[i], y[i]
    a, b, c = numpy.polyfit([t[i - 1] - t[i], 0.0, t[i + 1] - t[i]], y[i - 1:i + 2], 2)
    return t[i] - b / (2 * a), c - b**2 / (4 * a)


def default(func, world, extra):
    """Times requested by default"""
    from atooms.postprocessing.helpers import linear_grid, logx_grid
    total = world.total_time()
    if total == 0:
        return [0.0]
    if func == 'msd':
        end = total
        if 'rmax' in extra:
            r2 = ref.msd(world.unw[-1], world.unw[0])
            end = min(total, total * extra['rmax']**2 / r2)
        request = linear_grid(0.0, end, 30)
    elif func == 'vacf':
        request = linear_grid(0.0, total * 0.1, 30)
    elif func == 'alpha2':
        request = linear_grid(0.0, total * 0.75, 30)
    else:
        request = logx_grid(0.0, total * 0.75, 60)
    # Avoid times half way between two available ones
    for t in request:
        x = t / world.timestep
        if abs(x - round(x)) > 0.5 - 1e-9:
            return None
    return request
