"""
C03: norigins selects equally spaced time origins, consistently everywhere.

Space: (A) the five kinds of norigins x all sampling patterns (uniform and block,
with truncated last blocks) x number of frames, for one function of time and one
static function; (B) a smaller set of patterns for all the functions; (C) the
default heuristics with more than 40000 frames x particles.
Time functions are compared with the definition evaluated on the prescribed
origins; static functions with the same function evaluated on a trajectory that
only contains the prescribed frames.
"""
import numpy
from mc import build, ref
from mc.engine import Check as Base, Violation
from mc.env import scratch_root
from mc.worlds import World, close
from checks.c01 import model

NORIGINS = [-1, '-1', -1.0, -3, None, 1, '1', '1.0', 2, '2', 2.0, 3, '3', 4, 5, '5', 7, 50, 0.9, 0.5, '0.5', 0.34, '0.34',
            0.26, '0.2', 0.2, 0.1, 0.01, '0.01', 1.5, '2.5']
FEW = [-1, None, 1, '1', '1.0', 2, '3', 5, 0.5, '0.34', 0.1]
EQUIVALENT = [(-1, '-1', -1.0, -3), (1, '1'), (2, '2', 2.0), (3, '3'), (5, '5'), (0.5, '0.5'), (0.34, '0.34'), (0.2, '0.2'),
              (0.01, '0.01')]


def patterns(frames, period_max=5):
    out = []
    for n in range(1, frames + 1):
        out.append([10 * i for i in range(n)])
        for block in ([0, 1], [0, 1, 3], [0, 1, 2, 4]):
            period = {2: 4, 3: 7, 4: 8}[len(block)]
            steps = [period * (i // len(block)) + block[i % len(block)] for i in range(n)]
            if n > len(block):
                out.append(steps)
    return out


class Heavy:
    """A trajectory with many particles, for the default heuristics"""

    def __init__(self, npart, frames, blocks=False):
        from atooms.trajectory.base import TrajectoryBase
        from atooms.system import System, Particle, Cell
        steps = [10 * i for i in range(frames)] if not blocks else [8 * (i // 2) + [0, 1][i % 2] for i in range(frames)]
        x = numpy.arange(npart)
        self.vel = [numpy.stack([numpy.sin(x + f), numpy.cos(x * f), numpy.sin(x * f + 1)], axis=1) for f in range(frames)]
        vel = self.vel

        class T(TrajectoryBase):
            suffix = 'heavy'

            def __init__(self):
                super().__init__(None, 'w', False)
                self.steps = steps
                self._timestep = 1.0

            def read_steps(self):
                return steps

            def read_timestep(self):
                return 1.0

            def read_system(self, frame):
                return System(particle=[Particle(velocity=v) for v in vel[frame]], cell=Cell([5., 5., 5.]))
        self.steps = steps
        self.th = T()


class Check(Base):

    pid = 'C03'
    bounds = ('A: 31 norigins x all uniform and 3 block patterns with 1..33 (thorough: 57) frames for vacf and S(k); '
              'B: 11 norigins x patterns with <=13 (thorough: 20) frames x 17 functions; C: 12 (particles, frames) around the '
              '40000 threshold')
    assumptions = ['rounding below 1e-9', 'the heuristics for norigins=None counts all the particles of the first frame']

    def setup(self):
        self.tmp = scratch_root()

    def cases(self):
        for steps in patterns(57 if self.thorough else 33):
            for name in ('vacf', 'sk'):
                yield {'part': 'A', 'name': name, 'steps': steps}
        seq = [s for s in patterns(20 if self.thorough else 13)]
        for steps in seq:
            for name in build.ALL:
                yield {'part': 'B', 'name': name, 'steps': steps}
        for npart, frames, blocks in [(4000, 9, False), (4000, 10, False), (4000, 19, False), (4000, 20, False),
                                      (4001, 20, False), (9999, 13, False), (10001, 12, False), (20000, 5, False),
                                      (1000, 40, False), (1001, 81, False), (4000, 20, True), (8000, 21, True)]:
            yield {'part': 'C', 'npart': npart, 'frames': frames, 'blocks': blocks}

    def run(self, case):
        if case['part'] == 'C':
            return self.heavy(case)
        steps, name = case['steps'], case['name']
        layout = 'AB' if case['part'] == 'A' else 'AABAB'
        world = World(layout=layout, frames=len(steps), steps=steps, amp=0.12)
        radius = build.radius_file(world, self.folder(steps)) if name == 'ik' else None
        got = {}
        for norigins in (NORIGINS if case['part'] == 'A' else FEW):
            skip = ref.interval(norigins, steps, world.N)
            corr = build.make(name, world.trajectory(), world, radius_file=radius, norigins=norigins)
            corr.compute()
            self.calls += 1
            res = build.observe(corr)
            got[repr(norigins)] = res
            if name in build.TIME:
                self.time(name, world, norigins, skip, res)
            else:
                self.static(name, world, norigins, skip, res, radius)
            self.compared += 1
            self.outcome(name, repr(res))
        for group in EQUIVALENT:
            here = [n for n in group if repr(n) in got]
            for n in here[1:]:
                if not self.same(got[repr(n)], got[repr(here[0])]):
                    raise Violation('%s: norigins=%r and norigins=%r give different results' % (name, n, here[0]))

    def folder(self, steps):
        import hashlib
        import os
        path = os.path.join(self.tmp, hashlib.md5(repr(steps).encode()).hexdigest() + str(os.getpid()))
        os.makedirs(path, exist_ok=True)
        return path

    @staticmethod
    def same(a, b):
        try:
            return all(close(numpy.concatenate([numpy.ravel(u) for u in x]) if len(x) else [],
                             numpy.concatenate([numpy.ravel(u) for u in y]) if len(y) else [], rtol=1e-9, atol=1e-9)
                       for x, y in zip(a, b))
        except ValueError:
            return False

    def time(self, name, world, norigins, skip, res):
        offset = not ref.single_origin(norigins)
        every = [(s - world.steps[0]) * world.timestep for s in world.steps]
        sel = ref.selected(world.steps, world.timestep, every, offset)
        if name in ('msd', 'vacf', 'alpha2', 'qst', 'qt'):
            dts, value = model(name, world, sel, skip)
            value = [x if y == y else y for x, y in zip(res[1], value)]
        elif name in ('chi4', 'chi4opt'):
            def f(i, j):
                return ref.self_overlap(world.unw[j], world.unw[i], 0.3)
            dts, m1 = ref.time_average(world.steps, sel, skip, f)
            _, m2 = ref.time_average(world.steps, sel, skip, lambda i, j: f(i, j)**2)
            value = [(b - a**2) / world.N for a, b in zip(m1, m2)]
        else:
            # Fourier space: check the spacing of the origins through the definition at the reported k-vectors
            return self.fourier(name, world, sel, skip, norigins, res)
        if not close(res[0], dts):
            raise Violation('%s: norigins=%r, steps %s: grid %s instead of %s' % (name, norigins, world.steps, res[0], dts))
        if not close(res[1], value):
            raise Violation('%s: norigins=%r, steps %s: values %s instead of %s' % (name, norigins, world.steps, res[1], value))

    def fourier(self, name, world, sel, skip, norigins, res):
        corr = build.make(name, world.trajectory(), world, norigins=norigins)
        corr.compute()
        expected = []
        for klist in corr.kvectors:
            tot = None
            for kvec in klist:
                kvec = numpy.array(kvec)
                if name in ('fskt', 'fsktlegacy'):
                    dts, y = ref.time_average(world.steps, sel, skip, lambda i, j: float(
                        numpy.mean(numpy.cos((world.pos[j] - world.pos[i]).dot(kvec)))))
                elif name == 'fkt':
                    rho = [ref.rho_k(p, kvec) for p in world.pos]
                    dts, y = ref.time_average(world.steps, sel, skip, lambda i, j: (rho[j] * rho[i].conjugate()).real)
                else:
                    def w(i, j):
                        d2 = ((world.unw[j] - world.unw[i])**2).sum(axis=1)
                        return ref.rho_k(world.pos[i], kvec, (d2 < 0.09).astype(float))
                    dts, m1 = ref.time_average(world.steps, sel, skip, w)
                    _, m2 = ref.time_average(world.steps, sel, skip, lambda i, j: abs(w(i, j))**2)
                    y = [(b - abs(a)**2) / world.N for a, b in zip(m1, m2)]
                tot = numpy.array(y) if tot is None else tot + numpy.array(y)
            tot = tot / len(klist)
            if name != 's4kt':
                tot = tot / tot[0]
            expected.append(tot)
        if name == 's4kt':
            expected = numpy.transpose(expected)
            tgrid = res[0][0]
        else:
            tgrid = res[0][1]
        if not close(tgrid, dts):
            raise Violation('%s: norigins=%r, steps %s: grid %s instead of %s' % (name, norigins, world.steps, tgrid, dts))
        if not close(res[1], expected, atol=1e-9):
            raise Violation('%s: norigins=%r, steps %s: values %s instead of %s' % (
                name, norigins, world.steps, res[1], numpy.array(expected).tolist()))

    def static(self, name, world, norigins, skip, res, radius):
        sub = self.only(world, list(range(0, world.frames, skip)))
        if name == 'ik':
            radius = build.radius_file(sub, self.folder([world.steps, skip]))
        corr = build.make(name, sub.trajectory(), world, radius_file=radius, norigins=-1)
        corr.compute()
        self.calls += 1
        if not self.same(res, build.observe(corr)):
            raise Violation('%s: norigins=%r, steps %s: %s differs from the result %s over frames %s' % (
                name, norigins, world.steps, res[1], build.observe(corr)[1], list(range(0, world.frames, skip))))

    @staticmethod
    def only(world, frames):
        """The same world, with some of the frames"""
        sub = World(dict(world.spec, frames=len(frames), steps=[10 * i for i in range(len(frames))]))
        for key in ('side', 'species', 'index', 'pos', 'unw', 'vel', 'field'):
            setattr(sub, key, [getattr(world, key)[f] for f in frames])
        return sub

    def heavy(self, case):
        import atooms.postprocessing as pp
        w = Heavy(case['npart'], case['frames'], case['blocks'])
        tgrid = [float(s) for s in w.steps]
        grid, value = pp.VelocityAutocorrelation(w.th, tgrid, norigins=None).compute()
        self.calls += 1
        b = ref.block_size(w.steps)
        skip = ref.interval(None, w.steps, case['npart'])
        sel = ref.selected(w.steps, 1.0, tgrid)
        dts, expected = ref.time_average(w.steps, sel, skip, lambda i, j: float((w.vel[i] * w.vel[j]).sum() / case['npart']))
        n = len(range(0, case['frames'], skip))
        if b == 1 and n * case['npart'] > 2 * 40000 and n > 1:
            raise RuntimeError('the model of the heuristics is wrong')
        if not close(grid, dts) or not close(value, expected):
            raise Violation('vacf with %d particles, %d frames and norigins=None is not the average over every %d-th frame' % (
                case['npart'], case['frames'], skip))
        self.compared += 1
        self.outcome(value)
