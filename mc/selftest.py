"""
Test of the machinery itself (setup_cmd): the explorer must find planted
violations, survive the death of a worker and count what it covers; the
reference models must agree with closed forms.  It does not judge /repo.
"""
import json
import math
import os
import shutil
import signal
import tempfile
import time
import numpy

from . import engine, ref
from .worlds import World


class Toy(engine.Check):
    pid = 'TOY'

    def cases(self):
        return [{'i': i} for i in range(200)]

    def run(self, case):
        self.calls += 1
        if case['i'] == 77:
            raise engine.Violation('77')
        if case['i'] == 123:
            os.kill(os.getpid(), signal.SIGKILL)
        self.outcome(case['i'] % 7)


def explorer():
    for _ in range(2):  # same space, same verdict
        scratch = tempfile.mkdtemp()
        try:
            check = Toy('quick')
            total, found = engine.explore(check, check.cases(), 4, scratch, time.time() + 60)
        finally:
            shutil.rmtree(scratch)
        assert [idx for idx, _ in found] == [77, 123], found
        assert 'died' in found[1][1]
    cases = list(engine.deviations({'a': [0, 1, 2], 'b': [0, 1], 'c': [0]}, 2))
    assert len(cases) == 1 + 3 + 2 and len({json.dumps(c, sort_keys=True) for c in cases}) == len(cases)
    assert len(list(engine.product(a=[1, 2], b=[3, 4, 5]))) == 6


def models():
    # ballistic motion
    world = World(layout='AAAAA', frames=5, amp=0.0, drift=0.1, ndim=3, L=5.0)
    sel = ref.selected(world.steps, 1.0, [float(s) for s in world.steps])
    dts, value = ref.time_average(world.steps, sel, 1, lambda i, j: ref.msd(world.unw[j], world.unw[i]))
    v2 = 2 * 0.5**2 + 0.3**2
    assert dts == world.steps and numpy.allclose(value, [v2 * i**2 for i in range(5)])
    assert ref.block_size([0, 1, 2, 4, 8, 9, 10, 12]) == 4
    assert ref.block_size([0, 10, 20, 30]) == 1
    # a lattice: S(k) is N at Bragg peaks and 0 elsewhere
    pos = [numpy.array([i, j, k]) * 1.0 for i in range(2) for j in range(2) for k in range(2)]
    for n in range(1, 5):
        s = abs(ref.rho_k(pos, numpy.array([math.pi * n, 0., 0.])))**2 / 8
        assert abs(s - (8 if n % 2 == 0 else 0)) < 1e-12
    assert abs(ref.shell_volume(0, 1, 5) - 8 * math.pi**2 / 15) < 1e-12
    _, dk, shells = ref.wavevectors([1.0], 0.1, [2 * math.pi] * 3)
    assert sorted(len(s) for s in shells) == [6]


def main():
    explorer()
    models()
    print('selftest: ok')
    return 0
