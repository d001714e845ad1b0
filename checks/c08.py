"""
C08: F(k,t) and F_s(k,t) equal their definitions at the reported k and t.

Space: (A) all walks of two particles over a small alphabet of displacements, in
2D and 3D, for the three classes; (B) all configurations with a bounded number
of deviations from a default one (number of particles across the internal
blocks, memory of the lookup table, filters, sampling, cells, storage, k and
time grids, normalization); (C) user-defined wave-vectors in 1-4 dimensions.
"""
import itertools
import math
import numpy
from mc import build, ref
from mc.build import K1
from mc.engine import Check as Base, Violation, deviations
from mc.worlds import World, close
from checks.c01 import MOVES, times
from checks.c06 import KGRIDS, USER, species


def crossing(t, f):
    """Time at which f crosses 1/e of its initial value (None if it does not); False if it hits it exactly"""
    level = f[0] / math.e
    for i in range(1, len(f)):
        a, b = f[i - 1] - level, f[i] - level
        if abs(b) < 1e-9:
            return False
        if a * b < 0:
            return t[i - 1] + (t[i] - t[i - 1]) * a / (a - b)
    return None


class Check(Base):

    pid = 'C08'
    bounds = ('A: all walks of 2 particles, 3 moves, 3 (thorough: 4) frames, 2D and 3D x 3 classes; B: all configurations with '
              '<=3 deviations (thorough: 4; large systems: at most 2) over 17 axes x 3 classes; C: all pairs of user-defined shells in 1-4 dimensions')
    assumptions = ['rounding below 1e-8', 'F(k,t) between B and A is reported as that between A and B', 'constant cell and (for F_s) constant number of particles',
                   'the relaxation time is not checked if the function hits 1/e of its initial value exactly']

    def cases(self):
        nf = 4 if self.thorough else 3
        for ndim in (2, 3):
            moves = MOVES[ndim][:3] if ndim == 3 else MOVES[ndim][1:4]
            for walk in itertools.product(range(len(moves)), repeat=2 * (nf - 1)):
                yield {'part': 'A', 'ndim': ndim, 'frames': nf, 'walk': list(walk)}
        axes = {
            'group': ['all', 'A', 'A,B', 'B,A', 'A,A', 'partial-AB', 'partial-BB', 'partial-BA'],
            'ndim': [3, 2],
            'layout': ['AABABBABAB', 'A', 'AB' * 3, 'A' * 19 + 'B', 'AB' * 10 + 'A', 'AB' * 20, 'ABA' * 14 + 'A', 'ABAAB' * 41 + 'A',
                       'AABAB' * 50 + 'AB', 'AB' * 1010],
            'lookup_mb': [64.0, 1e-4, 0.01, 0.002],
            'kgrid': ['two', 'one', 'unsorted', 'negative', 'odd', 'default', 'close'],
            'nk': [3, 1, 2, 100],
            'dk': [0.1, 0.02, 0.4],
            'tgrid': ['all', 'sparse', 'half', 'nozero', 'beyond', 'repeated', 'default', 'dense'],
            'norigins': [-1, None, '1', 2, 0.5, 1],
            'frames': [4, 1, 2, 7, 9],
            'steps': ['lin10', 'log4', 'log3', 'off', 'logoff', 'lin1'],
            'timestep': [1.0, 0.005],
            'cell': ['cubic', 'ortho', 'long'],
            'storage': ['center', 'corner', 'images'],
            'normalize': [True, False],
            'nvar': ['none', 'gc', 'swap'],
            'seed': [0, 1, 2],
        }
        for case in deviations(axes, 4 if self.thorough else 3):
            big = len(case['layout'])
            for name in build.FOURIER_TIME:
                if name != 'fkt' and (',' in case['group'] or case['group'] in ('partial-AB', 'partial-BA')):
                    continue
                if name != 'fkt' and case['nvar'] != 'none':
                    continue
                if name != 'fskt' and case['lookup_mb'] != 64.0:
                    continue
                if big > 100 and sum(case[k] != v[0] for k, v in axes.items()) > 2:
                    continue
                if big > 1000 and (case['group'].startswith('partial') or case['frames'] != 4 or case['nk'] != 3):
                    continue
                yield dict(case, part='B', name=name)
        for ndim in (1, 2, 3, 4):
            for name in build.FOURIER_TIME:
                for a in range(len(USER[ndim])):
                    yield {'part': 'C', 'ndim': ndim, 'name': name, 'shell': a}

    def run(self, case):
        if case['part'] == 'A':
            ndim, nf = case['ndim'], case['frames']
            alphabet = MOVES[ndim][:3] if ndim == 3 else MOVES[ndim][1:4]
            moves = [[alphabet[case['walk'][f * 2 + i]] for i in range(2)] + [[0.0] * ndim] * 3 for f in range(nf - 1)]
            start = [[.45, -.41, .3][:ndim], [-.2, .1, .44][:ndim]] + [[.1 * i, .3 - .2 * i, -.1 * i][:ndim] for i in (1, 2, 3)]
            world = World(ndim=ndim, layout='ABBBB', frames=nf, walk=moves, start=start)
            for name in build.FOURIER_TIME:
                for group in ('all', 'A') + (('A,B', ) if name == 'fkt' else ()):
                    self.compare(name, world, group, {'kgrid': [K1, 1.42 * K1], 'nk': 2, 'dk': 0.1}, times('all', world))
            return
        if case['part'] == 'C':
            world = World(ndim=case['ndim'], layout='AABABBABAB', frames=3, cell='ortho')
            shells = USER[case['ndim']]
            for b in shells + [None]:
                user = [x for x in (shells[case['shell']], b) if x is not None]
                for group in ('all', 'A') + (('A,B', ) if case['name'] == 'fkt' else ()):
                    self.compare(case['name'], world, group, {'kgrid': [1.3]}, times('all', world), user=user)
            return
        world = World(ndim=case['ndim'], layout=case['layout'], frames=case['frames'], steps=case['steps'],
                      timestep=case['timestep'], cell=case['cell'], seed=case['seed'], nvar=case['nvar'], amp=0.15,
                      origin='corner' if case['storage'] == 'corner' else 'center',
                      images=2 if case['storage'] == 'images' else 0)
        kwargs = {'nk': case['nk'], 'dk': case['dk'], 'norigins': case['norigins'], 'normalize': case['normalize']}
        kgrid = KGRIDS[case['kgrid']]
        if kgrid is None:
            kwargs.update({'ksamples': 3, 'kmin': 1.1, 'kmax': 2.4})
        else:
            kwargs['kgrid'] = list(kgrid)
        if case['name'] == 'fskt':
            kwargs['lookup_mb'] = case['lookup_mb']
        if case['tgrid'] == 'default':
            if case['frames'] < 2:
                return
            tgrid = None
            kwargs['tsamples'] = 5
        else:
            tgrid = times(case['tgrid'], world)
        self.compare(case['name'], world, case['group'], kwargs, tgrid)

    def compare(self, name, world, group, kwargs, tgrid, user=None):
        from atooms.postprocessing.filter import Filter
        from atooms.postprocessing.partial import Partial
        cls = build.cls(name)
        names = {'all': (None, None), 'A': ('A', 'A')}.get(group)
        if group.startswith('partial'):
            names = tuple(group[-2:])
        elif names is None:
            names = tuple(group.split(','))
        everything = ('A', 'B') if group.startswith('partial') else ()
        if not world.dumpable(None, *(names + everything)):
            return
        if any(len(world.select(f, g)) == 0 for f in range(world.frames) for g in names + everything):
            return
        norigins, normalize = kwargs.get('norigins', -1), kwargs.get('normalize', True)
        kwargs = dict(kwargs)
        if tgrid is not None:
            kwargs['tgrid'] = list(tgrid)
        if group.startswith('partial'):
            p = Partial(cls, ['A', 'B'], world.trajectory(), **kwargs)
            p.compute()
            c = p.partial[tuple(group[-2:]) if name == 'fkt' else names[0]]
            source = c
        else:
            source = c = cls(world.trajectory(), **kwargs)
            if user is not None:
                k0 = 2 * math.pi / world.side[0]
                c.kvectors = [[numpy.array(k) * k0 for k in shell] for shell in user]
            if group == 'A':
                c.add_filter(species, 'A')
            elif ',' in group:
                Filter(c, 'species == "%s", species == "%s"' % names)
            c.compute()
        self.calls += 1
        kgrid, ts = c.grid
        value = c.value
        kvec = source.kvectors
        if len(kvec) != len(kgrid) or any(len(x) == 0 for x in kvec) or len(kgrid) == 0:
            raise Violation('%s: %d k points, %d shells of vectors' % (name, len(kgrid), len(kvec)))
        expected_k = [numpy.mean([math.sqrt(float(numpy.dot(k, k))) for k in shell]) for shell in kvec]
        if not close(kgrid, expected_k, rtol=1e-8):
            raise Violation('%s: k grid %s instead of %s' % (name, list(kgrid), expected_k))
        if user is not None:
            wanted = [[numpy.array(k) * k0 for k in shell] for shell in user]
            if len(wanted) != len(kvec) or not all(close(sorted(map(list, a)), sorted(map(list, b))) for a, b in zip(wanted, kvec)):
                raise Violation('%s: user-defined vectors are not used' % name)
        # Times
        skip = ref.interval(norigins, world.steps, len(world.pos[0]))
        offset = not ref.single_origin(norigins)
        av = ref.separations(world.steps, offset)
        if tgrid is None:
            # Logarithmic grid up to 3/4 of the total time
            from atooms.postprocessing.helpers import logx_grid
            request = logx_grid(0.0, 0.75 * world.total_time(), kwargs['tsamples'])
            if any(abs(t / world.timestep % 1.0 - 0.5) < 1e-9 for t in request):
                return
            sel = ref.selected(world.steps, world.timestep, request, offset)
        else:
            if normalize and tgrid[0] > 0:
                tgrid = [0.0] + list(tgrid)
            sel = ref.selected(world.steps, world.timestep, tgrid, offset)
        # Definition
        pos = [(world.pos[f][world.select(f, names[0])], world.pos[f][world.select(f, names[1])]) for f in range(world.frames)]
        if len(value) != len(kgrid):
            raise Violation('%s: %d rows of values for %d k points' % (name, len(value), len(kgrid)))
        for ik, shell in enumerate(kvec):
            ks = numpy.array(shell)
            e0 = [numpy.exp(1j * a.dot(ks.T)) for a, _ in pos]
            e1 = [numpy.exp(1j * b.dot(ks.T)) for _, b in pos]
            if name == 'fkt':
                r0, r1 = [x.sum(axis=0) for x in e0], [x.sum(axis=0) for x in e1]

                def f(i, j):
                    return float(numpy.mean((r0[j] * r1[i].conj()).real))
            else:
                def f(i, j):
                    return float(numpy.mean((e0[j] * e0[i].conj()).real))
            dts, expected = ref.time_average(world.steps, sel, skip, f)
            if not close(ts, [t * world.timestep for t in dts]):
                raise Violation('%s: times %s instead of %s' % (name, list(ts), [t * world.timestep for t in dts]))
            raw = list(expected)
            if normalize:
                if abs(expected[0]) < 1e-6:
                    continue
                expected = [x / expected[0] for x in expected]
            if not close(value[ik], expected, rtol=1e-7, atol=1e-8):
                raise Violation('%s (%s): at k=%s, values %s instead of %s' % (name, group, kgrid[ik], list(value[ik]), expected))
            if name == 'fkt' and not close(c.value_nonorm[ik], raw, rtol=1e-7, atol=1e-6):
                raise Violation('%s (%s): at k=%s, value_nonorm %s instead of %s' % (name, group, kgrid[ik], list(c.value_nonorm[ik]), raw))
            self.outcome(name, numpy.round(expected, 6).tolist())
        # Relaxation times
        if ts[0] == 0:
            c.analyze()
            tau = c.analysis['relaxation times tau']
            seen = set()
            for ik, k in enumerate(kgrid):
                if k in seen or list(kgrid).count(k) > 1:
                    continue
                seen.add(k)
                wanted = crossing(list(ts), list(value[ik]))
                if wanted is False or value[ik][0] == 0:
                    continue
                if (tau[k] is None) != (wanted is None) or (wanted is not None and abs(tau[k] - wanted) > 1e-6 * max(1, abs(wanted))):
                    raise Violation('%s (%s): relaxation time %s at k=%s, should be %s' % (name, group, tau[k], k, wanted))
        self.compared += 1
