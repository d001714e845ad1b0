"""
C05: linked cells find every pair within the cutoff exactly once.

Space: (A) for every shape of the cell, every set of periodic directions, every
mode: all the pairs of positions of a lattice that straddles every boundary
between subcells and of the box itself (evaluated at once, or in blocks), and
all pairs of sets with 0-2 particles; (B) all histories of at most 3 (thorough:
4) calls on the same object, over 3 boxes x 3 modes.
"""
import itertools
import numpy
from mc import ref
from mc.engine import Check as Base, Violation

SHAPES = {2: [[3.0, 3.0], [3.3, 4.9], [6.2, 3.1], [4.0, 4.0], [5.5, 5.5]],
          3: [[3.0, 3.0, 3.0], [3.3, 4.9, 3.9], [5.1, 3.1, 4.2], [4.0, 4.0, 4.0], [5.0, 3.5, 3.5]]}
NARROW = {2: [[1.1, 3.3], [2.3, 3.0], [1.0, 2.0]], 3: [[1.1, 3.3, 2.4], [2.0, 2.0, 3.0]]}
MODES = ['newton', 'full', 'other']


def axis(side, rcut, detail):
    """Positions along an axis: around all boundaries between subcells and outside the box"""
    n = int(side / rcut)
    edges = [-side / 2 + side / n * k for k in range(n + 1)]
    xs = set()
    for e in edges:
        xs |= {e - 0.02, e + 0.02} | ({e} if detail > 0 else set())
        if detail > 1:
            xs |= {e + 0.45 * rcut, e - 1e-7, e + 1e-7}
    return sorted(xs | ({-side * 1.4, side * 0.97} if detail > 0 else set()))


def lattice(box, rcut, detail):
    axes = [axis(side, rcut, detail) for side in box]
    pts = numpy.array(list(itertools.product(*axes)))
    # break the symmetry a little, keeping the points on their side of the boundaries
    i = numpy.arange(len(pts))[:, None] * numpy.array([1.0, 1.7, 2.3][:len(box)])[None, :]
    return pts + 3e-8 * numpy.sin(i)


class Check(Base):

    pid = 'C05'
    kernels = False
    bounds = ('A: all pairs of positions on lattices straddling every subcell boundary x 8 (2D) and 7 (3D) box shapes x cutoffs '
              '{1, 1.0 x scale} x all sets of periodic directions x 3 modes x {list, array}; L: lines of points along each axis x sides from 3 to 5 (thorough: 6.5) cutoffs x periodic or not x 3 modes; B: all histories of <=3 '
              '(thorough: 4) calls over 3 boxes x 3 modes, 2D and 3D')
    assumptions = ['at least three subcells along periodic directions, one along the others',
                   'a call with Newton III law after a full one on the same object may list pairs from both sides (as the test suite requires)',
                   'pairs within 1e-6 of the cutoff may be listed or not']

    def cases(self):
        for ndim in (2, 3):
            for box in SHAPES[ndim] + NARROW[ndim]:
                for periodic in [None] + list(itertools.product([True, False], repeat=ndim)):
                    pbc = periodic or (True,) * ndim
                    if any(p and b < 3.0 for p, b in zip(pbc, box)):
                        continue
                    for scale in (1.0, 0.37):
                        for mode in MODES:
                            yield {'part': 'A', 'ndim': ndim, 'box': [x * scale for x in box], 'rcut': scale * 0.9999999,
                                   'periodic': None if periodic is None else list(periodic), 'mode': mode}
        # lines of points along each axis, for sides at any fraction of the cutoff
        for ndim in (2, 3):
            for along in range(ndim):
                for side in numpy.arange(3.0, 6.51 if self.thorough else 5.01, 0.05 if self.thorough else 0.1):
                    for pbc in (True, False):
                        for mode in MODES:
                            yield {'part': 'L', 'ndim': ndim, 'along': along, 'side': round(float(side), 3), 'pbc': pbc, 'mode': mode}
        depth = 4 if self.thorough else 3
        for ndim in (2, 3):
            for n in range(1, depth + 1):
                for ops in itertools.product(range(9), repeat=n):
                    yield {'part': 'B', 'ndim': ndim, 'ops': list(ops)}
        # the periodic directions change from call to call
        for ndim in (2, 3):
            every = [None] + list(itertools.product([True, False], repeat=ndim))
            for n in (2, 3) if ndim == 2 or self.thorough else (2, ):
                for modes in itertools.product(range(3), repeat=n):
                    for pbc in itertools.product(every, repeat=n):
                        yield {'part': 'B', 'ndim': ndim, 'ops': list(modes), 'pbc': [p and list(p) for p in pbc]}

    def run(self, case):
        from atooms.postprocessing.linkedcells import LinkedCells
        ndim = case['ndim']
        if case['part'] == 'A':
            box, rcut, periodic = numpy.array(case['box']), case['rcut'], case['periodic']
            if ndim == 2:
                pts = lattice(box, rcut, 2 if self.thorough else 1)
                other = lattice(box, rcut, 1) + 0.011 * rcut
            else:
                pts = lattice(box, rcut, 0)
                pts = pts[numpy.arange(len(pts)) % (2 if not self.thorough else 1) == 0]
                other = lattice(box, rcut, 0) + 0.011 * rcut
                other = other[numpy.arange(len(other)) % 2 == 0]
            sets = [(pts, other)]
            few = pts[::max(1, len(pts) // 7)]
            sets += [(few[i:i + 1], few[j:j + 1]) for i in range(len(few)) for j in range(len(few))]
            sets += [(few[i:i + 2], few[j:j + 2]) for i in range(len(few)) for j in range(0, len(few), 2)]
            sets += [(pts[:0], pts[:1]), (pts[:1], pts[:0]), (pts, few), (few, pts)]
            for a, b in sets:
                self.once(LinkedCells(rcut), box, a, b, case['mode'], periodic, rcut, False)
            return
        if case['part'] == 'L':
            along, side = case['along'], case['side']
            rcut = 0.9999999
            box = numpy.array([3.37, 3.71, 3.9][:ndim])
            box[along] = side
            x = numpy.arange(-side / 2 + 0.0013, side / 2, 0.0493 if self.thorough else 0.0731)
            pts = numpy.zeros((len(x) + 4, ndim))
            pts[:len(x), along] = x
            # alternate the other coordinates, close to a boundary
            for k in range(ndim):
                if k != along:
                    pts[:len(x), k] = box[k] / 2 * (-1)**(numpy.arange(len(x)) // (k + 1)) * (1 - 1e-4)
            pts[len(x):, along] = [-side / 2 + 1e-3, side / 2 - 1e-3, -side / 2 + 0.995, side / 2 - 0.995]
            periodic = [True] * ndim
            periodic[along] = case['pbc']
            self.once(LinkedCells(rcut), box, pts, pts[::-1] + 0.017, case['mode'], periodic, rcut, False)
            return
        lc = LinkedCells(1.0)
        full = False
        boxes = [[3.3, 4.9, 3.4], [3.4, 4.8, 3.3], [5.2, 3.1, 4.4]]
        for n, op in enumerate(case['ops']):
            box = numpy.array(boxes[op // 3][:ndim])
            mode = MODES[op % 3]
            pts = lattice(box, 1.0, 0)[n::7 if ndim == 2 else 19]
            other = lattice(box, 1.0, 0)[n + 1::5 if ndim == 2 else 17] + 0.01
            periodic = case['pbc'][n] if 'pbc' in case else None
            self.once(lc, box, pts, other, mode, periodic, 1.0, full)
            full = full or mode != 'newton'

    def once(self, lc, box, pts, other, mode, periodic, rcut, full):
        pbc = [True] * len(box) if periodic is None else periodic
        kwargs = {'newton': mode == 'newton'}
        if mode == 'other':
            kwargs['other'] = other.copy()
        if periodic is not None:
            kwargs['periodic'] = numpy.array(periodic)
        listed = lc.compute(box.copy(), pts.copy(), **kwargs)
        listed = [[int(j) for j in x] for x in listed]
        array, number = lc.compute(box.copy(), pts.copy(), as_array=True, **kwargs)
        self.calls += 2
        second = [[int(j) for j in array[i][:number[i]]] for i in range(len(pts))]
        if len(array) != len(pts) or len(number) != len(pts):
            raise Violation('linked cells: %d lists of neighbors for %d particles' % (len(array), len(pts)))
        if [sorted(x) for x in second] != [sorted(x) for x in listed]:
            raise Violation('linked cells: lists and arrays of neighbors differ (box %s, %s)' % (box, mode))
        b = other if mode == 'other' else pts
        count = numpy.zeros((len(pts), len(b)), dtype=int)
        for i, x in enumerate(listed):
            for j in x:
                count[i, j] += 1
        if len(pts) and len(b):
            dr = pts[:, None, :] - b[None, :, :]
            fold = dr - numpy.rint(dr / box) * box
            dr = numpy.where(numpy.array(pbc), fold, dr)
            close = numpy.sqrt((dr**2).sum(axis=2)) < rcut - 1e-6
        else:
            close = numpy.zeros(count.shape, dtype=bool)
        if mode != 'other' and numpy.any(numpy.diag(count)):
            raise Violation('linked cells: a particle is its own neighbor (box %s, %s)' % (box, mode))
        if mode == 'newton':
            off = ~numpy.eye(len(pts), dtype=bool)
            both = count + count.T
            bad = close & off & (both != 1)
            extra = both > 1
            if full and not numpy.any(close & off & ((count != 1) | (count.T != 1))):
                bad = extra = numpy.zeros(0)
            count = both
        else:
            off = ~numpy.eye(len(pts), dtype=bool) if mode == 'full' else True
            bad = close & off & (count != 1)
            extra = count > 1
        if numpy.any(bad):
            i, j = numpy.argwhere(bad)[0]
            raise Violation('linked cells (%s, box %s, periodic %s): the pair %s %s within the cutoff is listed %d times' % (
                mode, box.tolist(), periodic, pts[i].tolist(), b[j].tolist(), count[i, j]))
        if numpy.any(extra):
            i, j = numpy.argwhere(extra)[0]
            raise Violation('linked cells (%s, box %s, periodic %s): the pair %s %s is listed %d times' % (
                mode, box.tolist(), periodic, pts[i].tolist(), b[j].tolist(), count[i, j]))
        self.compared += 1
        self.outcome(len(pts), count.sum(), listed[:3])
