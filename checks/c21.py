"""
C21: fix_cm removes the motion of the center of mass, exactly and only that.

Space: all histories of uniform displacements of the system over an alphabet of
vectors per frame, for each function accepting fix_cm, for the total function, all
partial ones and filters, in all combinations of a bounded number of variants of the
trajectory (masses, storage of positions, cache, cell, sampling, dimension).  The result
with fix_cm must be the one without fix_cm from the same trajectory expressed by hand in the
frame of the center of mass, whatever the displacement of the system; without fix_cm the
mean square displacement must be the one of the moving particles.
"""
import itertools
import numpy
from mc import build, ref
from mc.engine import Check as Base, Violation, deviations
from mc.worlds import World, close

NAMES = ['msd', 'fskt', 'fsktlegacy', 'fkt']
DRIFTS = {
    3: [[0.0, 0.0, 0.0], [0.2, 0.0, -0.13], [-0.1, 0.15, 0.0], [0.07, -0.2, 0.2]],
    2: [[0.0, 0.0], [0.2, 0.0], [-0.1, 0.15], [0.07, -0.2]],
}
LARGE = [1.0, 13.7]
AXES = {
    'ndim': [3, 2],
    'layout': ['AABABBAB', 'ABBBBBBB', 'ABCABCAB', 'AAAAA'],
    'masses': ['mixed', 'one', 'heavy'],
    'storage': ['folded', 'unfolded', 'images', 'corner'],
    'cache': [False, True],
    'cell': ['cubic', 'ortho'],
    'steps': ['lin10', 'log2', 'off'],
    'norigins': [-1, '1', None, 2],
    'filter': [None, 'species == "A"', 'mass > 1.2', 'species == "A", species == "B"'],
    'twice': [False, True],
}


def mass_center(world, f, x):
    m = world.mass[world.index[f]]
    return (x * m[:, None]).sum(axis=0) / m.sum()


class Check(Base):

    pid = 'C21'
    technique = 'exhaustive enumeration of histories of uniform displacements of small systems, compared with data prepared by hand'
    bounds = ('4 frames, all 4^3 histories of displacements per frame (2D: as many), 4 functions, all combinations of <=2 '
              '(thorough: 3) deviations in 10 characteristics of trajectory and calculation (for pairs in quick: the 8 histories over 2 '
              'displacements)')
    assumptions = ['folded positions: no particle moves by more than half the cell in a frame, including the displacement of the system',
                   'the center of mass is the one of the whole system, before filtering']

    def cases(self):
        for name in NAMES:
            for case in deviations(AXES, 3 if self.thorough else 2):
                changed = sum(case[k] != AXES[k][0] for k in AXES)
                if case['filter'] and 'species' in case['filter'] and case['layout'] == 'AAAAA':
                    continue
                if case['filter'] and 'mass' in case['filter'] and case['masses'] == 'one':
                    continue
                if case['filter'] and ',' in case['filter'] and name != 'fkt':
                    continue
                few = changed >= 2 and not self.thorough
                scales = [1.0]
                if case['storage'] == 'unfolded' and name == 'msd':
                    scales = LARGE
                for scale in scales:
                    for first in range(2 if few else 4):
                        yield dict(case, name=name, scale=scale, first=first, few=few)

    def world(self, case):
        world = World(ndim=case['ndim'], layout=case['layout'], frames=4, cell=case['cell'], steps=case['steps'], amp=0.2,
                      masses='mixed' if case['masses'] == 'mixed' else 'one',
                      unfolded_attr=case['storage'] == 'unfolded')
        if case['masses'] == 'heavy':
            world.mass = numpy.array([1.0 if i != 2 else 20.0 for i in range(world.N)])
        if not world.dumpable(None, 'A', 'B', 'C', lambda f, i: world.mass[i] > 1.2):
            return None
        return world

    def moved(self, case, world, shifts, center):
        """A copy of the world displaced by the given vectors, or in the frame of the center of mass"""
        new = World(world.spec)
        new.mass = world.mass
        for f in range(world.frames):
            side = new.side[f]
            new.unw[f] = world.unw[f] + shifts[f] * side
            if center:
                new.unw[f] = new.unw[f] - mass_center(new, f, new.unw[f])
            pos = new.unw[f] - numpy.rint(new.unw[f] / side) * side
            if case['storage'] == 'corner':
                pos = new.unw[f] - numpy.floor(new.unw[f] / side) * side
            elif case['storage'] == 'images':
                image = numpy.array([[(f + 3 * i + 2 * j + f * i) % 3 - 1 for j in range(world.ndim)] for i in range(len(pos))])
                pos = pos + image * side
            new.pos[f] = pos
        return new

    def compute(self, case, world, fix_cm):
        from atooms.postprocessing.filter import Filter
        from atooms.postprocessing.partial import Partial
        name = case['name']
        args, kwargs = build.arguments(name, world)
        kwargs.update(norigins=case['norigins'], fix_cm=fix_cm)
        if name != 'msd':
            kwargs['normalize'] = False
        th = world.trajectory(cache=case['cache'])
        species = sorted(set(case['layout']))
        out = []
        if case['filter']:
            objects = [Filter(build.cls(name)(th, *args, **kwargs), case['filter'])]
        else:
            objects = [build.cls(name)(th, *args, **kwargs)]
            if len(species) > 1:
                objects.append(Partial(build.cls(name), species, th, *args, **kwargs))
        for c in objects:
            c.compute()
            if case['twice']:
                c.compute()
            self.calls += 1
            for x in [c.partial[key] for key in sorted(c.partial)] if hasattr(c, 'partial') else [c]:
                grid, value = build.observe(x)
                if name == 'msd':
                    out += [numpy.array(grid), numpy.array(value)]
                else:
                    out += [numpy.array(grid[0]), numpy.array(grid[1]), numpy.array(value)]
        return out

    def run(self, case):
        world = self.world(case)
        if world is None:
            return
        drifts = DRIFTS[case['ndim']][:2 if case['few'] else None]
        still = numpy.zeros((4, world.ndim))
        # The reference does not depend on the displacements
        expected = self.compute(case, self.moved(case, world, still, True), False)
        for tail in itertools.product(range(len(drifts)), repeat=2):
            steps = [drifts[case['first']]] + [drifts[i] for i in tail]
            shifts = case['scale'] * numpy.vstack([numpy.zeros((1, world.ndim)), numpy.cumsum(steps, axis=0)])
            new = self.moved(case, world, shifts, False)
            got = self.compute(case, new, True)
            for a, b in zip(expected, got):
                if len(expected) != len(got) or not close(a, b, rtol=1e-6, atol=1e-7):
                    raise Violation('%s with fix_cm and displacements %s is %s instead of %s' % (
                        case['name'], steps, b.tolist(), a.tolist()))
            self.compared += 1
            if case['name'] == 'msd' and not case['filter']:
                value = self.compute(case, new, False)[1]
                tgrid = [(s - world.steps[0]) * world.timestep for s in world.steps]
                offset = not ref.single_origin(case['norigins'])
                sel = ref.selected(world.steps, world.timestep, tgrid, offset)
                skip = ref.interval(case['norigins'], world.steps, world.N)
                plain = ref.time_average(world.steps, sel, skip, lambda i, j: ref.msd(new.unw[j], new.unw[i]))[1]
                if not close(value, plain, rtol=1e-8, atol=1e-8):
                    raise Violation('msd without fix_cm and displacements %s is %s instead of %s' % (steps, value.tolist(), plain))
                self.compared += 1
        self.outcome(case['name'], [x.round(7).tolist() for x in expected])
