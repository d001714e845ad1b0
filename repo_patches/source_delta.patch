From ce86241853da145ff73888d453c15a953589e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 01/88] fix: accept fractions given as strings and more origins
 than blocks in adjust_skip

---
 atooms/postprocessing/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9010633..6cba170 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -157,8 +157,9 @@ def adjust_skip(trajectory, n_origins=None):
             skip = 1 * trajectory.block_size  # all origins
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
-            skip = int(nbl / float(n_origins)) * trajectory.block_size
-        elif int(n_origins) == 1:
+            # At least one block, if there are fewer blocks than requested origins
+            skip = max(1, int(nbl / float(n_origins))) * trajectory.block_size
+        elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
             # A float between 0 and 1
@@ -177,7 +178,7 @@ def adjust_skip(trajectory, n_origins=None):
             skip = trajectory.block_size
 
     # Make sure the skip is an multiple of block size
-    if skip % trajectory.block_size != 0 and int(n_origins) != 1:
+    if skip % trajectory.block_size != 0 and float(n_origins) != 1:
         raise ValueError('wrong skip {} {}'.format(skip, trajectory.block_size))
 
     # Normalize anyway and make it even
-- 
2.43.0


From ae3742a3d051080cb095f969df298f5b95545d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 02/88] fix: treat norigins=1 like '1' when disabling time
 offsets

---
 atooms/postprocessing/alpha2.py | 2 +-
 atooms/postprocessing/chi4t.py  | 2 +-
 atooms/postprocessing/msd.py    | 2 +-
 atooms/postprocessing/qt.py     | 4 ++--
 atooms/postprocessing/s4kt.py   | 2 +-
 atooms/postprocessing/sacf.py   | 2 +-
 atooms/postprocessing/vacf.py   | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 9dc79f5..0c5aac2 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -25,7 +25,7 @@ class NonGaussianParameter(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, self.trajectory.total_time * 0.75, nsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
 
     def _compute(self):
         def alpha_2(x, y):
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d1e0c72..2a89fdc 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -39,7 +39,7 @@ class Chi4SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
         self.a_square = a**2
         self.average = Correlation(self.trajectory, self.grid)
         self.average.short_name = 'Q^u(t)'
diff --git a/atooms/postprocessing/msd.py b/atooms/postprocessing/msd.py
index 12a52ac..76b2738 100644
--- a/atooms/postprocessing/msd.py
+++ b/atooms/postprocessing/msd.py
@@ -71,7 +71,7 @@ class MeanSquareDisplacement(Correlation):
         # Setup time grid
         # We disable offsets if only one time origin is requested or if no_offset is True
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid,
-                                            offset=self._norigins != '1' and not self._no_offset)
+                                            offset=self._norigins not in ('1', 1) and not self._no_offset)
         # Note that the grid is redefined
         self.grid, self.value = gcf_offset(msd, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index 111f088..35b6222 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -50,7 +50,7 @@ class CollectiveOverlap(Correlation):
         self.a_square = a**2
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
 
     def _compute(self):
         def f(x, y):
@@ -74,7 +74,7 @@ class SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
         self.a_square = a**2
 
     def _compute(self):
diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index 715ce68..0da4e79 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -34,7 +34,7 @@ class S4ktOverlap(FourierSpaceCorrelation):
         FourierSpaceCorrelation.__init__(self, trajectory, [tgrid, kgrid], norigins,
                                          nk, dk, kmin, kmax, ksamples)
         # Setup time grid
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins not in ('1', 1))
         self.a_square = a**2
 
     def _tabulate_W(self, kgrid, selection, t_off, t, skip):
diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index e26682e..9ba7464 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -23,7 +23,7 @@ class StressAutocorrelation(Correlation):
 
     def __init__(self, trajectory, tgrid, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins not in ('1', 1))
 
     def _get_stress(self):
         ndims = 3
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index b0a7657..2a73fbb 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -24,7 +24,7 @@ class VelocityAutocorrelation(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins not in ('1', 1))
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From 4909d58e7892a2751fc405cd0af1733a339a53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 03/88] fix: use the default time grid in velocity
 autocorrelation

---
 atooms/postprocessing/vacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 2a73fbb..c088202 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -24,7 +24,7 @@ class VelocityAutocorrelation(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins not in ('1', 1))
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From 10e387802ac8c2b6b09680ac4359a521a92fcfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 04/88] fix: honor norigins in velocity autocorrelation

---
 atooms/postprocessing/vacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index c088202..7d61f31 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -30,7 +30,7 @@ class VelocityAutocorrelation(Correlation):
         def f(x, y):
             return numpy.sum(x * y) / float(x.shape[0])
         self.grid, self.value = gcf_offset(f, self._discrete_tgrid,
-                                           self.trajectory.block_size,
+                                           self.skip,
                                            self.trajectory.steps,
                                            self._vel)
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 5234ed07fa30553288f3b0ba5a9e755f522a165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 05/88] fix: use the number of dimensions in the non-Gaussian
 parameter

---
 atooms/postprocessing/alpha2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 0c5aac2..4f141ff 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -34,7 +34,8 @@ class NonGaussianParameter(Correlation):
             dx2 = (x - y)**2
             dr2 = numpy.sum(dx2) / float(x.shape[0])
             dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) / float(x.shape[0])
-            return 3 * dr4 / (5 * dr2**2) - 1
+            ndim = x.shape[1]
+            return ndim * dr4 / ((ndim + 2) * dr2**2) - 1
 
         self.grid, self.value = gcf_offset(alpha_2, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
-- 
2.43.0


From 575fdd41f55146876ef7cb263c5c48039ef68604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 06/88] fix: reset phase space arrays when compute() is called
 again

---
 atooms/postprocessing/correlation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b28e6e8..4209198 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -310,7 +310,16 @@ class Correlation(object):
         Dump positions and/or velocities at different time frames as a
         list of numpy array.
         """
-        # TODO: what happens if we call compute twice?? Shouldnt we reset the arrays?
+        # Reset the arrays, in case compute() is called more than once
+        self._unfolded = None
+        self._pos, self._vel, self._ids, self._pos_unf = [], [], [], []
+        self._pos_0, self._pos_1 = [], []
+        self._vel_0, self._vel_1 = [], []
+        self._ids_0, self._ids_1 = [], []
+        self._pos_unf_0, self._pos_unf_1 = [], []
+        if self._weight is not None:
+            self._weight = []
+
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
         if not isinstance(self.phasespace, list) and \
-- 
2.43.0


From 8a160edca4b7c0983f601dbefb9e9a07636aef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 07/88] fix: reset dynamic susceptibility when compute() is
 called again

---
 atooms/postprocessing/chi4t.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 2a89fdc..0bd9fd4 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -50,12 +50,16 @@ class Chi4SelfOverlap(Correlation):
         self.variance.symbol = 'q2su'
         self.variance.long_name = 'Variance of self overlap, not normalized'
 
+    def _reset(self):
+        # The lists below are filled by _compute()
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
+
     def _compute(self):
         def f(x, y):
             return self_overlap(x, y, self.a_square).sum()
 
-        side = self.trajectory.read(0).cell.side
-        self.grid = []
+        self._reset()
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
@@ -107,7 +111,7 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         def f(x, y):
             return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
 
-        self.grid = []
+        self._reset()
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-- 
2.43.0


From 856ed785e4b5d7fe4b153da2fe2dbcea93365c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 08/88] fix: use all requested time origins in dynamic
 susceptibility

---
 atooms/postprocessing/chi4t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 0bd9fd4..4dec30a 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -64,7 +64,7 @@ class Chi4SelfOverlap(Correlation):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0 + i])
                 A2 += w**2
                 A += w
@@ -115,7 +115,7 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0+i])
                 A2 += w**2
                 A += w
-- 
2.43.0


From f5c676edd01a6312e94b8c1e663cc30b41253d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 09/88] fix: import existing f90 module in optimized dynamic
 susceptibility

---
 atooms/postprocessing/chi4t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 4dec30a..c11c8a6 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -103,13 +103,13 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
     def _compute(self):
         try:
-            from atooms.postprocessing.realspace_wrap import realspace_module
+            from atooms.postprocessing.realspace_wrap import compute
         except ImportError:
             _log.error('f90 wrapper missing or not functioning')
             raise
 
         def f(x, y):
-            return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
+            return compute.self_overlap(x, y, self.a_square)
 
         self._reset()
         self.average.tag, self.variance.tag = self.tag, self.tag
-- 
2.43.0


From cb2f8da9c0d8aae19fcbafef0a5c63680ae54e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 10/88] fix: read folded and unfolded positions independently

---
 atooms/postprocessing/correlation.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 4209198..c75eafa 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -200,7 +200,6 @@ class Correlation(object):
         else:
             self.trajectory = trj
         self._fix_cm = fix_cm
-        self._unfolded = None
         self.grid = grid
         self.value = []
         self.analysis = {}
@@ -311,7 +310,6 @@ class Correlation(object):
         list of numpy array.
         """
         # Reset the arrays, in case compute() is called more than once
-        self._unfolded = None
         self._pos, self._vel, self._ids, self._pos_unf = [], [], [], []
         self._pos_0, self._pos_1 = [], []
         self._vel_0, self._vel_1 = [], []
@@ -344,19 +342,11 @@ class Correlation(object):
         # Local shortcut
         th = self.trajectory
 
-        # We unfold the trajectory if phasespace requests it and
-        # unfolded positions are not available in the trajectory, or
-        # if we request folded positions with fixed center of mass
-        if ('pos-unf' in self.phasespace and not hasattr(th[0].particle[0], 'position_unfolded')) or \
-           ('pos' in self.phasespace and self._fix_cm):
-            # We unfold the positions, caching the trajectory
-            if self._unfolded is None:
-                self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
-                # We must fold positions back in this case
-                if 'pos' in self.phasespace:
-                    self._unfolded.add_callback(fold)
-            # Change the local shortcut to the unfolded trajectory
-            th = self._unfolded
+        # We unfold the trajectory if we request folded positions with
+        # fixed center of mass. We must fold positions back in this case
+        if 'pos' in self.phasespace and self._fix_cm:
+            th = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+            th.add_callback(fold)
 
         # Read everything except unfolded trajectories
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
@@ -374,8 +364,12 @@ class Correlation(object):
                     _ids = numpy.array([ids.index(_) for _ in _ids], dtype=numpy.int32)
                     self._ids.append(_ids)
 
-        # Read unfolded positions if requested
+        # Read unfolded positions if requested. We unfold the trajectory
+        # if unfolded positions are not available in the trajectory
         if 'pos-unf' in self.phasespace:
+            th = self.trajectory
+            if not hasattr(th[0].particle[0], 'position_unfolded'):
+                th = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
             if hasattr(th[0].particle[0], 'position_unfolded'):
                 # Unfolded positions are present in the trajectory
                 for s in progress(th):
-- 
2.43.0


From 6dbeff53406738b4ec4c5c41ef09fc2d89f94d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 11/88] fix: do not modify unfolded positions of the trajectory
 when fixing the center of mass

---
 atooms/postprocessing/correlation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index c75eafa..5765779 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -377,22 +377,21 @@ class Correlation(object):
                     # particle.position_unfolded because atooms.system
                     # methods work with particle.position
                     # TODO: can be revised with atooms 3.4.0
+                    cm = numpy.zeros_like(s.particle[0].position_unfolded)
                     if self._fix_cm:
                         # Compute CM using unfolded positions, which is safe
-                        cm = numpy.zeros_like(s.particle[0].position_unfolded)
                         mtot = 0.0
                         for p in s.particle:
                             cm += p.position_unfolded * p.mass
                             mtot += p.mass
                         cm /= mtot
-                        # Subtract it
-                        for p in s.particle:
-                            p.position_unfolded -= cm
                     # Apply filter if there is one
-                    # This must be done after the CM has been fixed
+                    # This must be done after the CM has been computed
                     if len(self._cbk) > 0:
                         s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
-                    self._pos_unf.append(s.dump('particle.position_unfolded'))
+                    # Subtract CM. We must not do it in-place, because
+                    # the trajectory may cache the particles
+                    self._pos_unf.append(s.dump('particle.position_unfolded') - cm)
             else:
                 for s in progress(th):
                     # Apply filter if there is one
-- 
2.43.0


From 58c96dda314d04f280cad45dd03435e82702f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 12/88] fix: honor fix_cm when two filters are applied

---
 atooms/postprocessing/correlation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 5765779..8824977 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -466,8 +466,13 @@ class Correlation(object):
             return
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
+            th = self.trajectory
+            # As for one-body correlations
+            if 'pos' in self.phasespace and self._fix_cm:
+                th = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+                th.add_callback(fold)
             ids = distinct_species(self.trajectory[0].particle)
-            for s in progress(self.trajectory):
+            for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 if 'pos' in self.phasespace:
-- 
2.43.0


From 95405c49ec9b18f1940f0da4b61e7fbb1c6c89c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 13/88] fix: do not accept more filters than bodies

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 8824977..8c6a042 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -289,7 +289,7 @@ class Correlation(object):
 
     def add_filter(self, cbk, *args, **kwargs):
         """Add filter callback `cbk` along with positional and keyword arguments"""
-        if len(self._cbk) > self.nbodies:
+        if len(self._cbk) >= self.nbodies:
             raise ValueError('number of filters cannot exceed n. of bodies')
         self._cbk.append(cbk)
         self._cbk_args.append(args)
-- 
2.43.0


From fa4e17c73acae28c04e86a24c11e2945cd1515a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 14/88] fix: read correlation functions with a single entry

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 8c6a042..118bff4 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -564,7 +564,7 @@ class Correlation(object):
     def read(self):
         """Read correlation function from existing file"""
         with open(self._output_file, 'r') as inp:
-            x = numpy.loadtxt(inp, unpack=True)
+            x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3:
                 _log.warn("cannot read 3-columns files yet in %s", self._output_file)
             elif len(x) == 2:
-- 
2.43.0


From 8591c2593c4ea2efd28d268f4ed3165ec70b1d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 15/88] fix: do not reseed the global random number generator

---
 atooms/postprocessing/fourierspace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 9e8a36f..5e95649 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -226,13 +226,14 @@ class FourierSpaceCorrelation(Correlation):
         # Decimate
         # Setting the seed here once so as to get the same set
         # independent of filters.
-        random.seed(1)
+        # We use a local generator not to reseed the global one.
+        rng = random.Random(1)
         # Pick up a random, unique set of nk vectors out ot the avilable ones
         # without exceeding maximum number of vectors in shell nkmax
         # self.kgrid, self.selection = self._decimate_k()
         for i, klist in enumerate(self._kvectors):
             nk = min(self.nk, len(klist))
-            self._kvectors[i] = random.sample(klist, nk)
+            self._kvectors[i] = rng.sample(klist, nk)
 
         # Define the grid using the actual kvectors
         # average k norms appear after decimation.
-- 
2.43.0


From a3902e5695c46e1494a10570c9886e64b1680a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 16/88] fix: tabulate enough exponentials for user-provided
 k-vectors

---
 atooms/postprocessing/fourierspace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 5e95649..d14fcb3 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -321,11 +321,12 @@ class FourierSpaceCorrelation(Correlation):
             for kvec in klist:
                 rounded = numpy.rint(kvec / self.k0)
                 self._kvectors[-1].append(numpy.array(rounded, dtype=int))
-                # Update shift
-                shift = min(shift, int(min(rounded)))
+                # Update shift. The grid of exponentials is symmetric,
+                # we must account for positive indices too
+                shift = max(shift, int(max(abs(rounded))))
 
         # Shift to make all array indices start from 0
-        self._koffset = int(abs(shift)) + 1
+        self._koffset = shift + 1
         for klist in self._kvectors:
             for i in range(len(klist)):
                 klist[i] = tuple(klist[i] + self._koffset)
-- 
2.43.0


From ecd3bf513a5120f4d2e9baee843b308d2a3eb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 17/88] fix: do not modify the k-grid provided by the user and
 restart from it when the cell changes

---
 atooms/postprocessing/fourierspace.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index d14fcb3..b2f6433 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -179,6 +179,9 @@ class FourierSpaceCorrelation(Correlation):
         self.k0 = []
         self._kvectors = []
         self._koffset = 0
+        # Requested grid of k-norms and sample used to build the k-vectors
+        self._kgrid_requested = None
+        self._kgrid_sample = 0
 
     def compute(self):
         # Setup grid once. If cell changes we'll call it again
@@ -190,17 +193,27 @@ class FourierSpaceCorrelation(Correlation):
         # We skip setup if the kgrid is already set up and we are not
         # asking to rebuild it (for a sample != 0).
         # This allows to copy over the kvectors and kgrid
-        if sample == 0 and self.kgrid is not None:
+        # If the k-vectors were rebuilt for another sample, we start afresh
+        if sample == 0 and self.kgrid is not None and self._kgrid_sample == 0:
             return
+        self._kgrid_sample = sample
 
         # We subclass compute to define k grid at compute time
         # Find k-norms grid and store it a self.kgrid (the norms are sorted)
         variables = self.short_name.split('(')[1][:-1]
         variables = variables.split(',')
-        if len(variables) > 1:
-            self.kgrid = self.grid[variables.index('k')]
-        else:
-            self.kgrid = self.grid
+        # We always start from the requested grid. We work on a copy
+        # because the k-norms are redefined below
+        if self._kgrid_requested is None:
+            if len(variables) > 1:
+                kgrid = self.grid[variables.index('k')]
+            else:
+                kgrid = self.grid
+            if kgrid is not None:
+                kgrid = tuple(kgrid)
+            self._kgrid_requested = (kgrid, )
+        kgrid = self._kgrid_requested[0]
+        self.kgrid = None if kgrid is None else list(kgrid)
 
         # Smallest kvector
         self.k0 = 2*math.pi/self.trajectory[sample].cell.side
-- 
2.43.0


From 95aec1e4c13626da1e6443e532028ed2fe4260ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 18/88] fix: check all frames to detect variable cells

---
 atooms/postprocessing/ik.py | 2 +-
 atooms/postprocessing/sk.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 2053ea0..1adcaa1 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -45,7 +45,7 @@ class SpectralDensity(FourierSpaceCorrelation):
         # Note: actually rho_av is not calculated because it is negligible
         rho_av = [complex(0., 0.) for k in self.kgrid]
         rho2_av = [complex(0., 0.) for k in self.kgrid]
-        cell_variable = is_cell_variable(self.trajectory)
+        cell_variable = is_cell_variable(self.trajectory, tests=0)
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update
             if cell_variable:
diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index f81bb33..a69edfc 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -67,7 +67,7 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
         rho_0_av = [complex(0., 0.) for k in kgrid]
         rho_1_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
-        variable_cell = is_cell_variable(self.trajectory)
+        variable_cell = is_cell_variable(self.trajectory, tests=0)
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
@@ -191,7 +191,7 @@ class StructureFactorFast(StructureFactorLegacy):
         cnt = [0 for k in kgrid]
         rho_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
-        variable_cell = is_cell_variable(self.trajectory)
+        variable_cell = is_cell_variable(self.trajectory, tests=0)
         for i in range(0, nsteps, self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
-- 
2.43.0


From db9f3445cd411abb54e435e9ddd3da7a720a7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 19/88] fix: use correct k-vectors and cross terms in fast
 structure factor

---
 atooms/postprocessing/sk.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index a69edfc..ae80ce8 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -205,7 +205,6 @@ class StructureFactorFast(StructureFactorLegacy):
                 expo_1 = expo_0
             else:
                 # Cross correlation
-                # TODO: cross correlation wont work
                 expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])
                 expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])
 
@@ -219,14 +218,18 @@ class StructureFactorFast(StructureFactorLegacy):
                 # TODO: do it by transpose()
                 # Fill array of kvectors in this bin
                 ikvec = numpy.ndarray((3, len(klist)), order='F', dtype=numpy.int32)
-                for i, kvec in enumerate(klist):
-                    ikvec[:, i] = kvec
-                rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
-                fourierspace_module.sk_bare(expo_0, ikvec, rho)
-                rho_0 = rho
-                rho_1 = rho
+                for ik, kvec in enumerate(klist):
+                    # Fortran indexing
+                    ikvec[:, ik] = numpy.array(kvec) + 1
+                rho_0 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                fourierspace_module.sk_bare(expo_0, ikvec, rho_0)
+                if expo_1 is expo_0:
+                    rho_1 = rho_0
+                else:
+                    rho_1 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                    fourierspace_module.sk_bare(expo_1, ikvec, rho_1)
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
-                cnt[k] += rho.shape[0]
+                cnt[k] += rho_0.shape[0]
 
         # Normalization.
         npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
-- 
2.43.0


From 1c2e1d6ef7abe355b583776054026ffe32a47343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 20/88] fix: use the python structure factor when the f90
 kernel is not applicable

---
 atooms/postprocessing/sk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index ae80ce8..ad6ddb1 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -177,6 +177,11 @@ class StructureFactorFast(StructureFactorLegacy):
     phasespace = ['pos']
 
     def _compute(self):
+        # The f90 kernel only handles three-dimensional systems without weights
+        if len(self.k0) != 3 or self._weight is not None:
+            super(StructureFactorFast, self)._compute()
+            return
+
         from atooms.trajectory.utils import is_cell_variable
         try:
             from atooms.postprocessing.fourierspace_wrap import fourierspace_module
-- 
2.43.0


From 5fbb8cb7189889c5cb222b9422a756f4f89dafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 21/88] fix: use the actual norm of k-vectors in spectral
 density

---
 atooms/postprocessing/ik.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 1adcaa1..b571111 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -8,7 +8,7 @@ from atooms.trajectory import Trajectory
 from atooms.trajectory.utils import is_cell_variable
 
 from .progress import progress
-from .fourierspace import FourierSpaceCorrelation, expo_sphere
+from .fourierspace import FourierSpaceCorrelation, expo_sphere, _k_norm
 
 __all__ = ['SpectralDensity']
 
@@ -54,10 +54,13 @@ class SpectralDensity(FourierSpaceCorrelation):
             expo = expo_sphere(self.k0, self._koffset, self._pos[i])
             for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    knorm = numpy.dot(kvec, kvec)**0.5
+                    knorm = _k_norm(kvec, self.k0, self._koffset)
                     Ri = self._radius[i]
-                    mk = 4 * numpy.pi / knorm**3 * \
-                        (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
+                    if knorm > 0:
+                        mk = 4 * numpy.pi / knorm**3 * \
+                            (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
+                    else:
+                        mk = 4 * numpy.pi / 3 * Ri**3
                     rho = numpy.sum(mk *
                                     expo[..., 0, kvec[0]] *
                                     expo[..., 1, kvec[1]] *
-- 
2.43.0


From 68e9eeaa0dfab1e2602dcc1e4505ea6ce99afe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 22/88] fix: match frames of sliced trajectories in spectral
 density

---
 atooms/postprocessing/ik.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index b571111..07a46f3 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -34,9 +34,12 @@ class SpectralDensity(FourierSpaceCorrelation):
         FourierSpaceCorrelation.__init__(self, trajectory, kgrid, norigins, nk,
                                          dk, kmin, kmax, ksamples)
         self._is_cell_variable = None
-        # TODO: check step consistency 06.09.2017
         with Trajectory(trajectory_radius) as th:
-            self._radius = [s.dump('particle.radius') for s in th]
+            frames = range(len(th))
+            if len(th.steps) != len(self.trajectory.steps):
+                # Pick up the frames at the same steps
+                frames = [th.steps.index(step) for step in self.trajectory.steps]
+            self._radius = [th[i].dump('particle.radius') for i in frames]
 
     def _compute(self):
         nsteps = len(self._pos)
-- 
2.43.0


From 30442e2322d47f89b618943289f432e5c5a028e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 23/88] fix: compute spectral density for all files, also with
 a radius trajectory

---
 atooms/postprocessing/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f942436..dc09f55 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -136,12 +136,12 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
-        if trajectory_radius is None:
-            trajectory_radius = input_file
-            pp.SpectralDensity(th, trajectory_radius,
-                               kgrid=kgrid, norigins=global_args['norigins'],
-                               kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                               ksamples=ksamples).do(update=global_args['update'])
+        # By default, radii are read from the trajectory itself
+        radius = th.filename if trajectory_radius is None else trajectory_radius
+        pp.SpectralDensity(th, radius,
+                           kgrid=kgrid, norigins=global_args['norigins'],
+                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                           ksamples=ksamples).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
-- 
2.43.0


From 0764664e5df94d08c6a1e12ab7b5c774640025a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 24/88] fix: make four-point structure factor work with the
 current k-vectors

---
 atooms/postprocessing/s4kt.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index 0da4e79..2c9c686 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -37,20 +37,20 @@ class S4ktOverlap(FourierSpaceCorrelation):
         self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins not in ('1', 1))
         self.a_square = a**2
 
-    def _tabulate_W(self, kgrid, selection, t_off, t, skip):
+    def _tabulate_W(self, t_off, t, skip):
         """
         Tabulate W
         """
-        side = self.trajectory[0].cell.side
         nt = range(t_off, len(self._pos)-t, skip)
         W = {}
         for i_0, t_0 in enumerate(nt):
             expo = expo_sphere(self.k0, self._koffset, self._pos[t_0])
-            for k, klist in self._kvectors:
+            overlap = self_overlap(self._pos_unf[t_0], self._pos_unf[t_0+t], self.a_square)
+            for klist in self._kvectors:
                 for kvec in klist:
                     if kvec not in W:
                         W[kvec] = numpy.ndarray(len(nt), dtype=complex)
-                    W[kvec][i_0] = numpy.sum(self_overlap(self._pos_unf[t_0], self._pos_unf[t_0+t], side, self.a_square) *
+                    W[kvec][i_0] = numpy.sum(overlap *
                                              expo[..., 0, kvec[0]] * expo[..., 1, kvec[1]] * expo[..., 2, kvec[2]])
         return W
 
@@ -62,20 +62,21 @@ class S4ktOverlap(FourierSpaceCorrelation):
         self.value = []
         for off, i in progress(self._discrete_tgrid):
             # As for fkt
-            W = self._tabulate_W(self.kgrid, self.selection, off, i, self.skip)
+            W = self._tabulate_W(off, i, self.skip)
 
             # Compute variance of W
-            w_av = [complex(0., 0.) for _ in self.kgrid]
-            w2_av = [complex(0., 0.) for _ in self.kgrid]
-            for k, klist in self._kvectors:
+            variance = [0.0 for _ in self.kgrid]
+            for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    # Comupte |<W>|^2  and <W W^*>
-                    w_av[kk] = numpy.average(W[kvec])
-                    w2_av[kk] = numpy.average(W[kvec] * W[kvec].conjugate())
+                    # Compute |<W>|^2  and <W W^*>
+                    w_av = numpy.average(W[kvec])
+                    w2_av = numpy.average(W[kvec] * W[kvec].conjugate())
+                    # Average over the k-vectors in the shell
+                    variance[k] += (w2_av - w_av * w_av.conjugate()).real / len(klist)
 
             # Normalization
             npart = self._pos[0].shape[0]
             dt.append(self.trajectory.timestep * (self.trajectory.steps[off+i] - self.trajectory.steps[off]))
-            self.value.append([float(w2_av[k] - (w_av[k]*w_av[k].conjugate())) / npart for k in range(len(self.grid[1]))])
+            self.value.append([x / npart for x in variance])
         self.grid[1] = self.kgrid
         self.grid[0] = dt
-- 
2.43.0


From 4b45c9f9c2be2427a55609458f6be367f26eb2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 25/88] fix: use existing class in api.chi4qs with fast option

---
 atooms/postprocessing/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index dc09f55..c0665d8 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -256,7 +256,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
     global_args = _compat(global_args)
     func = _func_db[func]
     if global_args['fast']:
-        backend = pp.Chi4SelfOverlapOpti
+        backend = pp.Chi4SelfOverlapOptimized
     else:
         backend = pp.Chi4SelfOverlap
 
-- 
2.43.0


From 8ad9b317c3ea1bc102eb569f2ef13f8c0eed1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 26/88] fix: compute dynamic susceptibility of one-component
 systems in api.chi4qs

---
 atooms/postprocessing/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index c0665d8..1a08ada 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -267,9 +267,9 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        if total:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
+        if total or len(ids) == 1:
+            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         if not total and len(ids) > 1:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
-- 
2.43.0


From 8512c70ff2d69a1e3a5e82cd5e303f17b5acd334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 27/88] fix: honor fix_cm in partial mean square displacements
 of api.msd

---
 atooms/postprocessing/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 1a08ada..cecaea5 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -165,7 +165,8 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
-                    rmax=rmsd_max, no_offset=no_offset).do(update=global_args['update'])
+                    rmax=rmsd_max, no_offset=no_offset,
+                    fix_cm=fix_cm).do(update=global_args['update'])
 
 def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
          tsamples=30, func='linear', *input_files, **global_args):
-- 
2.43.0


From 8a695f1441ef3bb3259e30fd01bed64785335adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 28/88] fix: open weight trajectory once per input file in
 api.sk

---
 atooms/postprocessing/api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index cecaea5..2e8883c 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -110,9 +110,10 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
                      kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
         if global_args['filter'] is not None:
             cf = pp.Filter(cf, global_args['filter'])
+        th_weight = None
         if weight_trajectory is not None:
-            weight_trajectory = TrajectoryXYZ(weight_trajectory)
-        cf.add_weight(trajectory=weight_trajectory,
+            th_weight = TrajectoryXYZ(weight_trajectory)
+        cf.add_weight(trajectory=th_weight,
                       field=weight,
                       fluctuations=weight_fluctuations)
         cf.do(update=global_args['update'])
@@ -123,7 +124,7 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
                          norigins=global_args['norigins'],
                          kmin=kmin, kmax=kmax, nk=nk, dk=dk,
                          ksamples=ksamples)
-            cf.add_weight(trajectory=weight_trajectory,
+            cf.add_weight(trajectory=th_weight,
                           field=weight,
                           fluctuations=weight_fluctuations)
             cf.do(update=global_args['update'])
-- 
2.43.0


From 223767f28aab9f195119b2bfd70cd226916a4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 29/88] fix: do not center cached particles multiple times

---
 atooms/postprocessing/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 2e8883c..b5ba588 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -24,7 +24,9 @@ def _get_trajectories(input_files, args):
             # Caching is useful for systems with multiple species but
             # it will increase the memory footprint. Use --no-cache to
             # disable it
-            if not args['no_cache']:
+            # Centering modifies the particles in-place, it would be
+            # applied over and over to the cached particles
+            if not args['no_cache'] and not args['center']:
                 th.cache = True
             if args['species_layout'] is not None:
                 th.register_callback(change_species, args['species_layout'])
-- 
2.43.0


From c02e2c8e96cb232b89de41ce60184c1d95209b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 30/88] fix: import postprocessing in acf.py

---
 bin/acf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/acf.py b/bin/acf.py
index 2f58401..983a560 100755
--- a/bin/acf.py
+++ b/bin/acf.py
@@ -2,7 +2,7 @@
 
 import sys
 import numpy
-import atooms.postprocessing
+import atooms.postprocessing as postprocessing
 from atooms.postprocessing.helpers import linear_grid, logx_grid
 
 def main(fname):
-- 
2.43.0


From 88fe3b3257230c1dd44c8ca28b2b52e4137a1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 31/88] fix: do not add attributes to particles when filtering

---
 atooms/postprocessing/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 72efb0c..adecf33 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -28,7 +28,8 @@ def Filter(correlation, condition):
         s = copy.copy(system)
         s.particle = []
         for particle in system.particle:
-            if eval(condition, particle.__dict__):
+            # Copy the attributes because eval() adds entries to the dictionary
+            if eval(condition, dict(particle.__dict__)):
                 s.particle.append(particle)
         return s
 
-- 
2.43.0


From 45400cb359a6349d4f6a654d0a662d69b8eb71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 32/88] fix: include last time origin in gcf

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 118bff4..0ec66b5 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -63,7 +63,7 @@ def gcf(f, grid, skip, t, x):
     cnt = defaultdict(int)
     for i in grid:
         # Note: len(x) gives x.shape[0]
-        for i0 in progress(range(0, len(x)-i-1, skip)):
+        for i0 in progress(range(0, len(x)-i, skip)):
             # Get the actual time difference
             dt = t[i0+i] - t[i0]
             cf[dt] += f(x[i0+i], x[i0])
-- 
2.43.0


From 017c90ba17e58bd3d4d93f7e8b57b0ff7eeaa5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 33/88] fix: write to output paths in the current directory

---
 atooms/postprocessing/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 0ec66b5..cfabb38 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -640,7 +640,9 @@ class Correlation(object):
         import os
         from atooms.core.utils import mkdir
         if self._output_file is not None:
-            mkdir(os.path.dirname(self._output_file))
+            dirname = os.path.dirname(self._output_file)
+            if len(dirname) > 0:
+                mkdir(dirname)
             with open(self._output_file, 'w') as fh:
                 fh.write(comments)
                 if len(analysis) > 0:
-- 
2.43.0


From 1b28967578a8c53800b82eca79fdef94a6174964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 34/88] fix: support trajectories without a file in write() and
 need_update()

---
 atooms/postprocessing/correlation.py | 3 +++
 atooms/postprocessing/fkt.py         | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index cfabb38..b5b3ea5 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -298,6 +298,9 @@ class Correlation(object):
     def need_update(self):
         """Check if the trajectory file is newer than the output file"""
         need = True
+        # There is nothing on disk to compare with
+        if self._output_file is None:
+            return need
         if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
             if os.path.getmtime(self.trajectory.filename) < \
                os.path.getmtime(self._output_file):
diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 6912971..755eb8e 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -167,7 +167,7 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file not in (None, '/dev/stdout'):
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
 
@@ -370,6 +370,6 @@ class IntermediateScattering(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file not in (None, '/dev/stdout'):
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
-- 
2.43.0


From cdcc96425693acb50bfe345fe17750113a50cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 35/88] fix: do not leave truncated output files behind

---
 atooms/postprocessing/correlation.py | 40 ++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b5b3ea5..883aef0 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -6,13 +6,14 @@
 import os
 import logging
 from collections import defaultdict
+from contextlib import contextmanager
 
 import numpy
 from atooms.trajectory import Trajectory
 from atooms.trajectory.decorators import Unfolded, fold
 from atooms.trajectory.decorators import change_species
 from atooms.system.particle import distinct_species
-from atooms.core.utils import Timer
+from atooms.core.utils import Timer, mkdir
 try:
     from medepy.metadata import dump as _dump
 except ImportError:
@@ -639,20 +640,43 @@ class Correlation(object):
                 analysis += '# %s: %s\n' % (x, f)
 
         # Put it all together
-        # and make sure the path to the output file exists
-        import os
-        from atooms.core.utils import mkdir
         if self._output_file is not None:
-            dirname = os.path.dirname(self._output_file)
-            if len(dirname) > 0:
-                mkdir(dirname)
-            with open(self._output_file, 'w') as fh:
+            with self._open(self._output_file) as fh:
                 fh.write(comments)
                 if len(analysis) > 0:
                     fh.write(analysis)
                 numpy.savetxt(fh, dump, fmt="%g")
                 fh.flush()
 
+    @contextmanager
+    def _open(self, path):
+        """
+        Open the output file `path` for writing and make sure the path
+        to it exists.
+
+        The file is moved to `path` only once it is complete. This
+        way, an interrupted run does not leave behind a truncated
+        file, which would then look up to date.
+        """
+        dirname = os.path.dirname(path)
+        if len(dirname) > 0:
+            mkdir(dirname)
+        if path == '/dev/stdout' or (os.path.exists(path) and not os.path.isfile(path)):
+            # Not a regular file
+            with open(path, 'w') as fh:
+                yield fh
+            return
+
+        tmp = path + '.tmp'
+        try:
+            with open(tmp, 'w') as fh:
+                yield fh
+            os.replace(tmp, path)
+        except BaseException:
+            if os.path.exists(tmp):
+                os.remove(tmp)
+            raise
+
     def do(self, update=False):
         """
         Do the full template pattern: compute, analyze and write the
-- 
2.43.0


From 4c275f3be1b8b63e8614c95e7ccf814856bc7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 36/88] fix: write the main output file after the additional
 ones

---
 atooms/postprocessing/chi4t.py |  3 ++-
 atooms/postprocessing/fkt.py   | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index c11c8a6..e36333c 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -82,9 +82,10 @@ class Chi4SelfOverlap(Correlation):
 
     def write(self):
         # We subclass this to also write down qsu and qsu2
-        super(Chi4SelfOverlap, self).write()
+        # The main file comes last, because it tells if an update is needed
         self.average.write()
         self.variance.write()
+        super(Chi4SelfOverlap, self).write()
 
     def analyze(self):
         try:
diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 755eb8e..67381de 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -166,10 +166,11 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
         self.analysis['relaxation times tau'] = _extract_tau(self.grid[0], self.grid[1], self.value)
 
     def write(self):
-        Correlation.write(self)
+        # The main file comes last, because it tells if an update is needed
         if self._output_file not in (None, '/dev/stdout'):
-            with open(self._output_file + '.tau', 'w') as out:
+            with self._open(self._output_file + '.tau') as out:
                 _write_tau(out, self.analysis)
+        Correlation.write(self)
 
 
 class SelfIntermediateScatteringFast(SelfIntermediateScatteringLegacy):
@@ -369,7 +370,8 @@ class IntermediateScattering(IntermediateScatteringBase):
         self.analysis['relaxation times tau'] = _extract_tau(self.grid[0], self.grid[1], self.value)
 
     def write(self):
-        Correlation.write(self)
+        # The main file comes last, because it tells if an update is needed
         if self._output_file not in (None, '/dev/stdout'):
-            with open(self._output_file + '.tau', 'w') as out:
+            with self._open(self._output_file + '.tau') as out:
                 _write_tau(out, self.analysis)
+        Correlation.write(self)
-- 
2.43.0


From dca71ad4b40d91f1b9f917ae7ba3968f6f6532c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 37/88] fix: let logarithmic grids starting from zero increase
 also if x2<1

---
 atooms/postprocessing/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 6cba170..63867c0 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -21,7 +21,8 @@ def logx_grid(x1, x2, n):
         xx = (x2 / x1)**(1.0 / n)
         return [x1] + [x1 * xx**(i+1) for i in range(1, n)]
     else:
-        xx = x2**(1.0/n)
+        # Shift x2 if it is too small, to make sure the grid is increasing
+        xx = (x2 if x2 > 1 else 1 + x2)**(1.0/n)
         return [x1] + [xx**(i+1) - 1 for i in range(1, n)]
 
 
-- 
2.43.0


From 1db6f635eefee5eba89157b0e0e76193f7076027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 38/88] fix: handle rounding errors in linear fits of aligned
 data

---
 atooms/postprocessing/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 63867c0..6442e6c 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -87,7 +87,8 @@ def linear_fit(xdata, ydata):
     a = (n * sxy - sx * sy) / (n * sxx - sx**2)
     b = sy / n - a * sx / n
     if dof > 0:
-        s = (n*syy - sy**2 - a**2 * (n*sxx - sx**2)) / (n*dof)
+        # This is non-negative, up to rounding
+        s = max(0.0, (n*syy - sy**2 - a**2 * (n*sxx - sx**2)) / (n*dof))
     else:
         s = 0.0
     sa = n * s / (n*sxx - sx**2)
-- 
2.43.0


From f49686087cd55a2cd6efdd03aaea3db0d2fb2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 39/88] fix: find the closest image of particles that are not
 folded in the cell

---
 atooms/postprocessing/realspace.f90 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 835f3e1..5e3b4b8 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -21,7 +21,7 @@ contains
       real(8), intent(inout)  :: dist(:)
       real(8), intent(in)     :: boxDim(:)
       where (abs(dist) > boxDim/2)
-         dist = dist - sign(boxDim,dist)
+         dist = dist - anint(dist/boxDim)*boxDim
       end where
   end subroutine pbc
 
@@ -230,7 +230,7 @@ contains
        jsp = ids(j) - delta
        rij = center(:) - pos(:,j)
        where (abs(rij) > hbox)
-          rij = rij - sign(box,rij)
+          rij = rij - anint(rij/box)*box
        end where
        rijsq = dot_product(rij,rij)
        if (rijsq < rcutsq(jsp)) then
@@ -325,7 +325,7 @@ contains
           k = k+1
           dist(:) = positions(j,:) - pos(:)
           where (abs(dist) > hbox)
-             dist = dist - sign(box,dist)
+             dist = dist - anint(dist/box)*box
           end where
           distances(k) = sqrt(sum(dist**2))
        end do
@@ -426,7 +426,7 @@ contains
           k = k+1
           dist(:) = other(j,:) - pos(:)
           where (abs(dist) > hbox)
-             dist = dist - sign(box,dist)
+             dist = dist - anint(dist/box)*box
           end where
           distances(k) = sqrt(sum(dist**2))
        end do
@@ -509,7 +509,7 @@ contains
        do j=i+1,size(positions,1)
           dist(:) = positions(j,:) - pos(:)
           where (abs(dist) > hbox)
-             dist = dist - sign(box,dist)
+             dist = dist - anint(dist/box)*box
           end where
           rdist = sqrt(sum(dist**2))
           if (rdist < rmax) then
@@ -596,7 +596,7 @@ contains
        do j=1,size(positions2,1)
           dist(:) = positions2(j,:) - pos(:)
           where (abs(dist) > hbox)
-             dist = dist - sign(box,dist)
+             dist = dist - anint(dist/box)*box
           end where
           rdist = sqrt(sum(dist**2))
           if (rdist < rmax) then
-- 
2.43.0


From d10e2e46bddfa712546612591cf8a9b06b3397d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 40/88] fix: do not write past the end of the g(r) histogram

---
 atooms/postprocessing/realspace.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 5e3b4b8..c72bc44 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -332,7 +332,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -433,7 +433,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -520,7 +520,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -607,7 +607,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
-- 
2.43.0


From 50a6270c8d82d8cbe5a28e2d090cdb7ca5177175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 41/88] fix: replace numpy.int in linked cells

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index d9f496a..9459705 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -123,7 +123,7 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(numpy.int)
+        return x.astype(int)
 
     def on_border(self, pos):
         index = list(self._index(pos))
@@ -179,7 +179,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=numpy.int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From b1437edc4349f32cd3287e6ad36ece0fb49726b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 42/88] fix: support particles outside the cell or at its
 boundary in linked cells

---
 atooms/postprocessing/linkedcells.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 9459705..66e0834 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -22,6 +22,7 @@ class LinkedCells(object):
         self.box_cell = self.box / self.n_cell
         if periodic is None:
             periodic = numpy.array([True] * len(box))
+        self.periodic = periodic
         self._map(newton, periodic)
 
     def _map(self, newton, periodic):
@@ -123,7 +124,11 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(int)
+        index = numpy.floor(x).astype(int)
+        # Particles may lie outside the cell or right at its boundary:
+        # fold them along periodic directions, otherwise use the closest subcell
+        return numpy.where(self.periodic, index % self.n_cell,
+                           numpy.clip(index, 0, self.n_cell - 1))
 
     def on_border(self, pos):
         index = list(self._index(pos))
-- 
2.43.0


From b6f6417ae11b0f85b3a1ebc772b5855c60ea23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 43/88] fix: adjust linked cells when the box changes

---
 atooms/postprocessing/linkedcells.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 66e0834..aa9ea91 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -16,7 +16,7 @@ class LinkedCells(object):
         self._is_adjusted = False
 
     def adjust(self, box, newton, periodic=None):
-        self.box = box
+        self.box = numpy.array(box)
         self.hbox = box / 2
         self.n_cell = (box / self.rcut).astype(int)
         self.box_cell = self.box / self.n_cell
@@ -140,8 +140,12 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted:
-            self.adjust(box, newton=other is None and newton, periodic=periodic)
+        # Adjust the subcells again if the box changed or if we need all
+        # pairs and the current map only accounts for half of them
+        newton = other is None and newton
+        if not self._is_adjusted or numpy.any(self.box != box) or (self._newton and not newton):
+            self.adjust(box, newton=newton, periodic=periodic)
+            self._newton = newton
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
         # this is the same set of particles we use when retrieving
-- 
2.43.0


From 37aaa7018fc6955703809c9b1d93e913c9b3bffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 44/88] fix: include all neighbors in the same subcell when not
 using Newton III law

---
 atooms/postprocessing/linkedcells.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index aa9ea91..b11af88 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -172,7 +172,8 @@ class LinkedCells(object):
             neighbors = []
             # Start with particles in the cell of particle ipart
             if other is None:
-                neighbors += [_ for _ in particle_in_cell[icell] if _ > ipart]
+                neighbors += [_ for _ in particle_in_cell[icell] if _ > ipart or
+                              (not self._newton and _ != ipart)]
             else:
                 neighbors += particle_in_cell[icell]
                 # try:
-- 
2.43.0


From 458418ccf9a27a114263d07c56406eebe53da66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 45/88] fix: volume of hyperspherical shells in odd dimensions
 in g(r)

---
 atooms/postprocessing/gr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 742183e..beb77c5 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -165,7 +165,7 @@ class RadialDistributionFunctionLegacy(Correlation):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
         rho = N_1 / volume
         if self._pos_0 is self._pos_1:
@@ -344,7 +344,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
 
         rho = N_1 / volume
-- 
2.43.0


From 5fab356bdb5674bc26cbf0d9907f8cc18f26da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 46/88] fix: average number of particles over the frames used
 to compute g(r)

---
 atooms/postprocessing/gr.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index beb77c5..c6b71da 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -139,10 +139,8 @@ class RadialDistributionFunctionLegacy(Correlation):
         # Assume grandcanonical trajectory for generality.
         # Note that testing if the trajectory is grandcanonical or
         # semigrandcanonical is useless when applying filters.
-        # N_0, N_1 = len(self._pos_0[0]), len(self._pos_1[0])
-        N_0 = numpy.average([len(x) for x in self._pos_0])
-        N_1 = numpy.average([len(x) for x in self._pos_1])
-
+        # We average over the frames entering the histogram.
+        N_0, N_1 = [], []
         gr_all = []
         _, r = numpy.histogram([], bins=self.grid)
         origins = range(0, ncfg, self.skip)
@@ -151,6 +149,8 @@ class RadialDistributionFunctionLegacy(Correlation):
             side = system.cell.side
             if len(self._pos_0[i]) == 0 or len(self._pos_1[i]) == 0:
                 continue
+            N_0.append(len(self._pos_0[i]))
+            N_1.append(len(self._pos_1[i]))
             if self._pos_0 is self._pos_1:
                 gr = pairs_newton_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
             else:
@@ -158,6 +158,8 @@ class RadialDistributionFunctionLegacy(Correlation):
             gr_all.append(gr)
 
         # Normalization
+        N_0 = numpy.average(N_0)
+        N_1 = numpy.average(N_1)
         volume = system.cell.volume
         if ndims == 2:
             vol = math.pi * (r[1:]**2 - r[:-1]**2)
-- 
2.43.0


From 22c34ce306df59ac99f6dbd7995cd748c4f3baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 47/88] fix: normalize g(r) with the volume of each frame when
 the cell fluctuates

---
 atooms/postprocessing/gr.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index c6b71da..86ec8d6 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -155,12 +155,11 @@ class RadialDistributionFunctionLegacy(Correlation):
                 gr = pairs_newton_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
             else:
                 gr = pairs_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
-            gr_all.append(gr)
+            gr_all.append(gr * system.cell.volume)
 
         # Normalization
         N_0 = numpy.average(N_0)
         N_1 = numpy.average(N_1)
-        volume = system.cell.volume
         if ndims == 2:
             vol = math.pi * (r[1:]**2 - r[:-1]**2)
         elif ndims == 3:
@@ -169,11 +168,10 @@ class RadialDistributionFunctionLegacy(Correlation):
             from math import gamma
             n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
-        rho = N_1 / volume
         if self._pos_0 is self._pos_1:
-            norm = rho * vol * N_0 * 0.5  # use Newton III
+            norm = N_1 * vol * N_0 * 0.5  # use Newton III
         else:
-            norm = rho * vol * N_0
+            norm = N_1 * vol * N_0
         gr = numpy.average(gr_all, axis=0)
         self.grid = (r[:-1] + r[1:]) / 2.0
         self.value = gr / norm
@@ -323,8 +321,12 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
                 else:
                     compute.gr_neighbors_distinct_c('C', pos_0, pos_1, neighbors, number_of_neighbors, side, dr, gr, bins)
 
-            # Damned copies in python
-            gr_all.append(gr.copy())
+            # Normalize by the volume of this very frame (this makes a copy too)
+            if system.cell is not None:
+                volume = system.cell.volume
+            else:
+                volume = len(system.particle) / system.density
+            gr_all.append(gr * volume)
 
         # import matplotlib.pyplot as plt
         # plt.plot(pos_0[:, 0], pos_0[:, 1], 'o')
@@ -336,10 +338,6 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         r = bins - (bins[1] - bins[0]) / 2
         N_0 = numpy.average(N_0)
         N_1 = numpy.average(N_1)
-        if system.cell is not None:
-            volume = system.cell.volume
-        else:
-            volume = len(system.particle) / system.density
         if ndims == 2:
             vol = math.pi * (r[1:]**2 - r[:-1]**2)
         elif ndims == 3:
@@ -349,8 +347,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
 
-        rho = N_1 / volume
-        norm = rho * vol * N_0
+        norm = N_1 * vol * N_0
 
         if not distinct:
             # We used Newton III
-- 
2.43.0


From 994c4d06937d837b03d6fec51324fce6c45a9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 48/88] fix: RadialDistributionFunctionFast keeps the last bin
 of the grid

---
 atooms/postprocessing/gr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 86ec8d6..9dc6437 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -335,7 +335,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         
         # Normalization
         # Array r is used to compute shells, we thus use the bin boundaries
-        r = bins - (bins[1] - bins[0]) / 2
+        r = numpy.append(bins - dr / 2, bins[-1] + dr / 2)
         N_0 = numpy.average(N_0)
         N_1 = numpy.average(N_1)
         if ndims == 2:
@@ -355,8 +355,8 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         gr = numpy.average(gr_all, axis=0)
 
         # Normalize and clean up boundaries
-        self.value = gr[:-1] / norm
-        self.grid = bins[:-1]
+        self.value = gr / norm
+        self.grid = bins
         if remove_self_term:
             self.value[0] = self.value[1]
 
-- 
2.43.0


From af5409ded77efa7fff4859f10d6b6ca5ce430a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 49/88] fix: RadialDistributionFunctionFast honors grids not
 starting at dr/2

---
 atooms/postprocessing/gr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 9dc6437..4b874cd 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -224,6 +224,13 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         ndims = system.number_of_dimensions
         self._setup_grid(system)
         dr = self.grid[1] - self.grid[0]
+
+        # The f90 kernels assume that the bins start at r=0. With a
+        # different grid, we fall back on the legacy calculation
+        if system.cell is not None and numpy.all(system.cell.periodic) and \
+           abs(self.grid[0] - dr / 2) > 1e-6 * dr:
+            return super()._compute()
+
         gr = numpy.zeros(len(self.grid), dtype=int)
         bins = numpy.array(self.grid)
 
-- 
2.43.0


From 01933cabd15ac1464782057c31ded124078318ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 50/88] fix: linked cells in g(r) include all the pairs in the
 last bin

---
 atooms/postprocessing/gr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 4b874cd..2cbac63 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -245,9 +245,11 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n_0 = len(self._pos_0[0])
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
-            nmax = self.rmax**ndims * rho
-            if int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
-                linkedcells = LinkedCells(rcut=self.rmax)
+            # The bin centered around rmax extends beyond it
+            rcut = self.rmax + dr
+            nmax = rcut**ndims * rho
+            if int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
+                linkedcells = LinkedCells(rcut=rcut)
             else:
                 linkedcells = None
 
-- 
2.43.0


From aa3b273426da22064bd237c950775541729e87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 51/88] fix: exclude the self term from g(r) between
 overlapping groups

---
 atooms/postprocessing/gr.py         |  8 +++-----
 atooms/postprocessing/realspace.f90 | 13 +++++++++----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 2cbac63..a08b548 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -61,6 +61,8 @@ def pairs_hist(f, x, y, L, bins):
     hist, bins = numpy.histogram([], bins)
     for i in range(len(y)):
         fxy = f(x[:], y[i], L)
+        # Exclude the self term, if the two groups overlap
+        fxy = fxy[fxy > 0.0]
         hist_tmp, bins = numpy.histogram(fxy, bins)
         hist += hist_tmp
     return hist
@@ -271,7 +273,6 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
 
             # Switch between self and distinct calculation
             distinct = pos_0 is not pos_1
-            remove_self_term = False
 
             # Store side
             system = self.trajectory.read(i)
@@ -284,9 +285,8 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
                 # which are 1 is particles are on the surface and 0 otherwise
                 mask = compute.on_surface_c(pos_0, system.cell.side, self.rmax)
                 pos_0 = pos_0[mask == 0, :]
-                # Force distinct calculation. This gives a spurious signal at r=0, which we remove
+                # Force distinct calculation. The self term is removed by the kernels
                 distinct = True
-                remove_self_term = True
 
             # When using linked cells, we precalculate the neighbors
             # This will only happen if the system is within a cell (and all directions are periodic)
@@ -366,8 +366,6 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         # Normalize and clean up boundaries
         self.value = gr / norm
         self.grid = bins
-        if remove_self_term:
-            self.value[0] = self.value[1]
 
         # Restrict distances to L/2 (in last frame) or rmax
         if self.rmax > 0:
diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index c72bc44..20c8ede 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -405,7 +405,7 @@ contains
     real(8), intent(inout) :: bins(:)
     real(8)                   :: distances(size(other,1))  ! stack
     real(8), intent(in)       :: box(:)
-    real(8)    :: dist(size(box)), dist_sq, pos(size(box)), rmax, hbox(size(box))
+    real(8)    :: dist(size(box)), dist_sq, pos(size(box)), rmax, hbox(size(box)), rdist
     integer(8) :: i, j, ii, jj, bin, k, delta
     if (offset == 'C') then
        delta = 1
@@ -423,12 +423,16 @@ contains
        k = 0
        do jj=1,number_of_neighbors(i)
           j = neighbors(i,jj) + delta
-          k = k+1
           dist(:) = other(j,:) - pos(:)
           where (abs(dist) > hbox)
              dist = dist - anint(dist/box)*box
           end where
-          distances(k) = sqrt(sum(dist**2))
+          rdist = sqrt(sum(dist**2))
+          ! Exclude the self term, if the two groups overlap
+          if (rdist > 0.0_8) then
+             k = k+1
+             distances(k) = rdist
+          end if
        end do
        ! Bin distances
        do j=1,k
@@ -599,7 +603,8 @@ contains
              dist = dist - anint(dist/box)*box
           end where
           rdist = sqrt(sum(dist**2))
-          if (rdist < rmax) then
+          ! Exclude the self term, if the two groups overlap
+          if (rdist > 0.0_8 .and. rdist < rmax) then
              k = k+1
              distances(k) = rdist
           end if
-- 
2.43.0


From 76d4a8ae577546f9830ccb5fb6b41699d4f16d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 52/88] fix: bond-angle distribution with more than 50
 neighbors

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 2b9a724..15bc85a 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -95,7 +95,7 @@ class BondAngleDistribution(Correlation):
             # system = change_species(system, 'F')  # species are in fortran style
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
-            neighbors = numpy.ndarray(50, dtype=numpy.int32)
+            neighbors = numpy.ndarray(len(self._pos_1[i]), dtype=numpy.int32)
             for idx in range(len(self._pos_0[i])):
                 isp = self._ids_0[i][idx]
                 compute.neighbors('C', side, self._pos_0[i][idx],
-- 
2.43.0


From 400549e9c610901afd26bbc1053fbd07917cd7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 53/88] fix: bond-angle distribution can be computed again

---
 atooms/postprocessing/ba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 15bc85a..e29b66a 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -59,6 +59,7 @@ class BondAngleDistribution(Correlation):
 
     def __init__(self, trajectory, norigins=None, dtheta=4.0, rcut=None):
         Correlation.__init__(self, trajectory, None, norigins=norigins)
+        self.dtheta = dtheta
         self.grid = linear_grid(0.0, 180.0, dtheta)  # reassign grid anyway
         self.rcut = rcut
 
@@ -67,6 +68,8 @@ class BondAngleDistribution(Correlation):
         from atooms.postprocessing.realspace_wrap import compute
         from atooms.system.particle import distinct_species
 
+        # The grid is redefined below, rebuild it in case we compute again
+        self.grid = linear_grid(0.0, 180.0, self.dtheta)
         hist_all = []
         hist_one = numpy.ndarray(len(self.grid), dtype=numpy.int32)
         origins = range(0, len(self.trajectory), self.skip)
-- 
2.43.0


From 424ffc27d49aa7a9949a4b40825f0c049b304c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 54/88] fix: bond-angle distribution includes angles of 180
 degrees

---
 atooms/postprocessing/ba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index e29b66a..89d0506 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -115,6 +115,9 @@ class BondAngleDistribution(Correlation):
 
         # Normalization
         hist = numpy.sum(hist_all, axis=0)
+        # Angles of exactly 180 degrees belong to the last bin
+        if self.grid[-1] == 180.0:
+            hist[-2] += hist[-1]
         norm = float(numpy.sum(hist[:-1]))
         self.grid = (numpy.array(self.grid[:-1]) + numpy.array(self.grid[1:])) / 2.0
         self.value = hist[:-1] / (norm * dtheta)
-- 
2.43.0


From b5466e02fa826f30a77ccd9c3161550cdcfa3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 55/88] fix: cross S(k) in arbitrary dimension

---
 atooms/postprocessing/sk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index ad6ddb1..0fdf2c5 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -131,11 +131,11 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
                                               expo_1[..., 1, kvec[1]])
                         else:
                             tmp = weight_0 * expo_0[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            for idim in range(1, ndims):
                                 tmp *= expo_0[..., idim, kvec[idim]]
                             rho_0 = numpy.sum(tmp)
-                            tmp = weight_0 * expo_1[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            tmp = weight_1 * expo_1[..., 0, kvec[0]]
+                            for idim in range(1, ndims):
                                 tmp *= expo_1[..., idim, kvec[idim]]
                             rho_1 = numpy.sum(tmp)
 
-- 
2.43.0


From ec8d01e1c12004edbaf2dc133fde8e2e70b55efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 56/88] fix: S(k) is normalized with the number of particles in
 the frames it averages over

---
 atooms/postprocessing/sk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 0fdf2c5..0a3d9a8 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -152,8 +152,8 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
             rho_1_av = [complex(0., 0.) for k in kgrid]
 
         # Normalization
-        npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
-        npart_1 = sum([p.shape[0] for p in self._pos_1]) / float(len(self._pos_1))
+        npart_0 = numpy.average([p.shape[0] for p in self._pos_0[::self.skip]])
+        npart_1 = numpy.average([p.shape[0] for p in self._pos_1[::self.skip]])
         self.grid = kgrid
         self.value, self.value_nonorm = [], []
         for k in range(len(self.grid)):
@@ -237,8 +237,8 @@ class StructureFactorFast(StructureFactorLegacy):
                 cnt[k] += rho_0.shape[0]
 
         # Normalization.
-        npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
-        npart_1 = sum([p.shape[0] for p in self._pos_1]) / float(len(self._pos_1))
+        npart_0 = numpy.average([p.shape[0] for p in self._pos_0[::self.skip]])
+        npart_1 = numpy.average([p.shape[0] for p in self._pos_1[::self.skip]])
         self.grid = kgrid
         self.value, self.value_nonorm = [], []
         for k in range(len(self.grid)):
-- 
2.43.0


From 06823a8dee90863dbd1f2d0822f9447303df283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 57/88] fix: F(k,t) in arbitrary dimension

---
 atooms/postprocessing/fkt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 67381de..61f9c23 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -307,10 +307,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                     expo_0[..., 1, kvec[1]])
                     else:
                         # Arbitrary dimension (a bit slower)
-                        tmp = expo_0[..., 0, kvec[0]]
+                        tmp = expo_0[..., 0, kvec[0]].copy()
                         for idim in range(1, len(kvec)):
                             tmp *= expo_0[..., idim, kvec[idim]]
-                        rho_0[it][kvec] += numpy.sum(tmp).real
+                        rho_0[it][kvec] = numpy.sum(tmp)
 
                     # Same optimization as above: only calculate rho_1 if needed
                     if self._pos_1 is not self._pos_0:
@@ -323,10 +323,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                         expo_1[..., 1, kvec[1]])
                         else:
                             # Arbitrary dimension (a bit slower)
-                            tmp = expo_1[..., 0, kvec[0]]
+                            tmp = expo_1[..., 0, kvec[0]].copy()
                             for idim in range(1, len(kvec)):
                                 tmp *= expo_1[..., idim, kvec[idim]]
-                            rho_1[it][kvec] += numpy.sum(tmp).real
+                            rho_1[it][kvec] = numpy.sum(tmp)
 
             # Optimization
             if self._pos_1 is self._pos_0:
-- 
2.43.0


From b253f05ecc5ef0dbcc90cef2cb813f9256e00e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 58/88] fix: compute() returns grid and value in Fourier space
 too

---
 atooms/postprocessing/fourierspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index b2f6433..a4d7670 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -187,7 +187,7 @@ class FourierSpaceCorrelation(Correlation):
         # Setup grid once. If cell changes we'll call it again
         self._setup()
         # Now compute
-        super(FourierSpaceCorrelation, self).compute()
+        return super(FourierSpaceCorrelation, self).compute()
 
     def _setup(self, sample=0):
         # We skip setup if the kgrid is already set up and we are not
-- 
2.43.0


From f3d668e7f78325539bc153a72139ea49c4e81708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 59/88] fix: do not use linked cells for g(r) in other than 2
 or 3 dimensions

---
 atooms/postprocessing/gr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index a08b548..624f10c 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -239,6 +239,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         # Use linked cells only if it is advantageous
         # - more than 3 cells along each side
         # - memory footprint is < ~1Gb
+        # - two or three dimensions
         # These tests are done of the first framce
         # TODO: if memory footprint is surpassed skip particles
         # TODO: fix fluctating cell case!
@@ -250,7 +251,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             # The bin centered around rmax extends beyond it
             rcut = self.rmax + dr
             nmax = rcut**ndims * rho
-            if int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
+            if ndims in (2, 3) and int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
                 linkedcells = LinkedCells(rcut=rcut)
             else:
                 linkedcells = None
-- 
2.43.0


From 523dfaf6c76060bfa0dff5327a846e37441e8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 60/88] fix: support linked cells without central particles

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index b11af88..13505ca 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -188,8 +188,8 @@ class LinkedCells(object):
 
         if as_array:
             npart = len(self.neighbors)
-            number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
+            number_of_neighbors = numpy.array(self.number_of_neighbors, dtype=int)
+            neighbors_array = numpy.ndarray((npart, max(self.number_of_neighbors, default=0)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From e4095a7c45e3919ca735f3b980d52cc92b6f9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 61/88] fix: write average and variance of self overlap next to
 the dynamic susceptibility

---
 atooms/postprocessing/chi4t.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index e36333c..d7e1df9 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -83,8 +83,11 @@ class Chi4SelfOverlap(Correlation):
     def write(self):
         # We subclass this to also write down qsu and qsu2
         # The main file comes last, because it tells if an update is needed
-        self.average.write()
-        self.variance.write()
+        for corr in [self.average, self.variance]:
+            corr.output_path = self.output_path
+            # Do not overwrite the main file, if the path does not depend on the symbol
+            if corr._output_file != self._output_file or self._output_file == '/dev/stdout':
+                corr.write()
         super(Chi4SelfOverlap, self).write()
 
     def analyze(self):
-- 
2.43.0


From 56358e9a30ce2ef278eaf3d558f5568e14eca52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 62/88] fix: describe the filter in the title of average and
 variance of self overlap

---
 atooms/postprocessing/chi4t.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d7e1df9..6007557 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -85,6 +85,7 @@ class Chi4SelfOverlap(Correlation):
         # The main file comes last, because it tells if an update is needed
         for corr in [self.average, self.variance]:
             corr.output_path = self.output_path
+            corr.tag_description = self.tag_description
             # Do not overwrite the main file, if the path does not depend on the symbol
             if corr._output_file != self._output_file or self._output_file == '/dev/stdout':
                 corr.write()
-- 
2.43.0


From 8c6e528a84b1c5f25c03d4e3be2f39d3c9a24656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 63/88] fix: default cutoffs of bond-angle distribution do not
 overwrite g(r) files

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 89d0506..17a6736 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -28,7 +28,7 @@ def _default_rcut(th):
 
     ids = distinct_species(th[0].particle)
     gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
-    gr.do(update=False)
+    gr.compute()
     rcut = {}
     for isp in ids:
         for jsp in ids:
-- 
2.43.0


From a808b682a88d86990b8e09352068237cf2ad566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 64/88] fix: F(k,t) of two species is not copied from the one
 with exchanged species

---
 atooms/postprocessing/fkt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 61f9c23..0f5cbad 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -268,6 +268,8 @@ class IntermediateScattering(IntermediateScatteringBase):
     short_name = 'F(k,t)'
     long_name = 'intermediate scattering function'
     phasespace = 'pos'
+    # Exchanging the two groups amounts to reversing time
+    _symmetric = False
 
     def __init__(self, trajectory, kgrid=None, tgrid=None, nk=100, dk=0.1, tsamples=60,
                  kmin=1.0, kmax=10.0, ksamples=10, norigins=-1, fix_cm=False, normalize=True):
-- 
2.43.0


From 340b55d353c032d02fb194b87748755205b39286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 65/88] fix: weights leave no callback behind and do not modify
 the particles

---
 atooms/postprocessing/correlation.py | 23 ++++++++++++++++++-----
 atooms/postprocessing/helpers.py     |  7 +++++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 883aef0..8c1bcad 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -20,7 +20,7 @@ except ImportError:
     from .helpers import _dump
 
 from . import core
-from .helpers import adjust_skip
+from .helpers import adjust_skip, copy_field
 from .progress import progress
 
 __all__ = ['acf', 'gcf', 'gcf_offset', 'Correlation']
@@ -272,10 +272,8 @@ class Correlation(object):
         if trajectory is None:
             self._weight_trajectory = self.trajectory
         else:
+            # The field is copied over while setting up the arrays
             self._weight_trajectory = trajectory
-            # Copy over the field
-            from .helpers import copy_field
-            self.trajectory.add_callback(copy_field, self._weight_field, self._weight_trajectory)
 
         # Make sure the steps are consistent
         if self._weight_trajectory.steps != self.trajectory.steps:
@@ -308,6 +306,20 @@ class Correlation(object):
                 need = False
         return need
 
+    @contextmanager
+    def _linked_weight(self):
+        """
+        Copy over the field of the weight trajectory when reading the
+        trajectory, without leaving the callback behind.
+        """
+        callbacks = self.trajectory.callbacks
+        if self._weight is not None and self._weight_trajectory is not self.trajectory:
+            self.trajectory.callbacks = callbacks + [(copy_field, (self._weight_field, self._weight_trajectory), {})]
+        try:
+            yield
+        finally:
+            self.trajectory.callbacks = callbacks
+
     def _setup_arrays(self):
         """
         Dump positions and/or velocities at different time frames as a
@@ -512,7 +524,8 @@ class Correlation(object):
         _log.info('setup arrays for %s', self.tag_description)
         t = [Timer(), Timer()]
         t[0].start()
-        self._setup_arrays()
+        with self._linked_weight():
+            self._setup_arrays()
         t[0].stop()
 
         _log.info('computing %s for %s', self.long_name, self.tag_description)
diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 6442e6c..9c10d2b 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -138,10 +138,13 @@ def copy_field(system, field, trajectory):
     """
     # Only available in atooms > 1.10.0
     so = trajectory[system.frame]
-    for p, po in zip(system.particle, so.particle):
+    # The trajectory may cache the particles, we must not modify them
+    s = copy.copy(system)
+    s.particle = [copy.copy(p) for p in system.particle]
+    for p, po in zip(s.particle, so.particle):
         x = getattr(po, field)
         setattr(p, field, x)
-    return system
+    return s
 
 
 def adjust_skip(trajectory, n_origins=None):
-- 
2.43.0


From 8c7ed36e095854897e8d55ce374c8c409011bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 66/88] fix: default time grid of the msd is redefined when
 computing again, since it may depend on the filters (C14)

---
 atooms/postprocessing/msd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/msd.py b/atooms/postprocessing/msd.py
index 76b2738..d2ba8cc 100644
--- a/atooms/postprocessing/msd.py
+++ b/atooms/postprocessing/msd.py
@@ -49,6 +49,8 @@ class MeanSquareDisplacement(Correlation):
         # Offsets in time grid are only relevant with periodic blocks
         # Use the no_offset parameter to disable them
         self._no_offset = no_offset
+        # Whether the time grid is defined in _compute()
+        self._default_grid = False
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins, fix_cm=fix_cm)
 
     def _compute(self):
@@ -58,7 +60,10 @@ class MeanSquareDisplacement(Correlation):
         def msd(x, y):
             return numpy.sum((x-y)**2) / float(x.shape[0])
 
-        if self.grid is None:
+        # The default grid may depend on the particles, hence on the
+        # filters, so it must be redefined at every calculation
+        if self.grid is None or self._default_grid:
+            self._default_grid = True
             t_max = self.trajectory.total_time
             if self.rmax > 0.0:
                 msd_total = msd(self._pos_unf[-1], self._pos_unf[0])
-- 
2.43.0


From f03c3f41870c0773405fe7ac7f3d1cce7007b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 67/88] fix: reset the results of the analysis when computing
 again (C14)

---
 atooms/postprocessing/correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 8c1bcad..de7ad5f 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -521,6 +521,9 @@ class Correlation(object):
         This method sets the `self.grid` and `self.value` variables,
         which are also returned.
         """
+        # Results of a previous analysis do not apply anymore
+        self.analysis = {}
+
         _log.info('setup arrays for %s', self.tag_description)
         t = [Timer(), Timer()]
         t[0].start()
-- 
2.43.0


From 0d13c8eb147f2bc95d317dcd52e556a5db2368b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 68/88] fix: writing F(k,t) without analysis does not fail
 (C14)

---
 atooms/postprocessing/fkt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 0f5cbad..fd21a29 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -167,7 +167,8 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
 
     def write(self):
         # The main file comes last, because it tells if an update is needed
-        if self._output_file not in (None, '/dev/stdout'):
+        # There are no relaxation times if the analysis was not done
+        if self._output_file not in (None, '/dev/stdout') and 'relaxation times tau' in self.analysis:
             with self._open(self._output_file + '.tau') as out:
                 _write_tau(out, self.analysis)
         Correlation.write(self)
@@ -373,7 +374,8 @@ class IntermediateScattering(IntermediateScatteringBase):
 
     def write(self):
         # The main file comes last, because it tells if an update is needed
-        if self._output_file not in (None, '/dev/stdout'):
+        # There are no relaxation times if the analysis was not done
+        if self._output_file not in (None, '/dev/stdout') and 'relaxation times tau' in self.analysis:
             with self._open(self._output_file + '.tau') as out:
                 _write_tau(out, self.analysis)
         Correlation.write(self)
-- 
2.43.0


From ce02167857c759cb681006731b93cd3ebf043788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 69/88] fix: write functions of two variables whose second grid
 is not a list (C15)

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index de7ad5f..9945350 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -625,7 +625,7 @@ class Correlation(object):
         # Pack grid and value into arrays to dump
         if _is_iterable(self.grid[0]) and len(self.grid) == 2:
             x = numpy.array(self.grid[0]).repeat(len(self.value[0]))
-            y = numpy.array(self.grid[1] * len(self.grid[0]))
+            y = numpy.tile(self.grid[1], len(self.grid[0]))
             z = numpy.array(self.value).flatten()
             dump = numpy.transpose(numpy.array([x, y, z]))
         else:
-- 
2.43.0


From d13b3dbde36ecff75b223472c8bb1cba0fe2fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 70/88] fix: honor --filter in all the functions that ignored
 it, and --no-partial in chi4qs (C18)

---
 atooms/postprocessing/api.py | 61 +++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index b5ba588..06e67e5 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -69,6 +69,12 @@ def _compat(args):
 
     return args
 
+def _filter(cf, args):
+    """Filter the correlation function `cf`, if requested in `args`"""
+    if args['filter'] is not None:
+        cf = pp.Filter(cf, args['filter'])
+    return cf
+
 def gr(input_file, dr=0.04, grandcanonical=False, ndim=-1, rmax=-1.0, *input_files, **global_args):
     """Radial distribution function"""
     global_args = _compat(global_args)
@@ -82,8 +88,7 @@ def gr(input_file, dr=0.04, grandcanonical=False, ndim=-1, rmax=-1.0, *input_fil
         cf = backend(th, dr=dr, rmax=rmax,
                      norigins=global_args['norigins'],
                      ndim=ndim)
-        if global_args['filter'] is not None:
-            cf = pp.Filter(cf, global_args['filter'])
+        cf = _filter(cf, global_args)
         cf.do(update=global_args['update'])
 
         ids = distinct_species(th[0].particle)
@@ -110,8 +115,7 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
         cf = backend(th, kgrid=kgrid,
                      norigins=global_args['norigins'], kmin=kmin,
                      kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
-        if global_args['filter'] is not None:
-            cf = pp.Filter(cf, global_args['filter'])
+        cf = _filter(cf, global_args)
         th_weight = None
         if weight_trajectory is not None:
             th_weight = TrajectoryXYZ(weight_trajectory)
@@ -161,10 +165,11 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        pp.MeanSquareDisplacement(th, tgrid=t_grid,
-                                  norigins=global_args['norigins'],
-                                  sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
-                                  fix_cm=fix_cm).do(update=global_args['update'])
+        cf = pp.MeanSquareDisplacement(th, tgrid=t_grid,
+                                       norigins=global_args['norigins'],
+                                       sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
+                                       fix_cm=fix_cm)
+        _filter(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
@@ -183,7 +188,8 @@ def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins'])
+        _filter(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.VelocityAutocorrelation, ids, th,
@@ -212,10 +218,11 @@ def fkt(input_file, tmax=-1.0, tmax_fraction=0.75,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            pp.IntermediateScattering(th, k_grid, t_grid,
-                                      norigins=global_args['norigins'],
-                                      nk=nk, dk=dk, fix_cm=fix_cm).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = pp.IntermediateScattering(th, k_grid, t_grid,
+                                           norigins=global_args['norigins'],
+                                           nk=nk, dk=dk, fix_cm=fix_cm)
+            _filter(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.IntermediateScattering, ids, th, k_grid, t_grid,
                     norigins=global_args['norigins'],
@@ -244,10 +251,11 @@ def fskt(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=60,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, k_grid, t_grid, nk, dk=dk,
-                    norigins=global_args['norigins'], fix_cm=fix_cm,
-                    lookup_mb=lookup_mb).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = backend(th, k_grid, t_grid, nk, dk=dk,
+                         norigins=global_args['norigins'], fix_cm=fix_cm,
+                         lookup_mb=lookup_mb)
+            _filter(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, k_grid, t_grid, nk, dk=dk,
                     norigins=global_args['norigins'], fix_cm=fix_cm,
@@ -272,9 +280,10 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
-        if not total and len(ids) > 1:
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = backend(th, t_grid, a=a, norigins=global_args['norigins'])
+            _filter(cf, global_args).do(update=global_args['update'])
+        if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
 
@@ -290,7 +299,8 @@ def alpha2(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins'])
+        _filter(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.NonGaussianParameter, ids, th, t_grid,
@@ -308,7 +318,8 @@ def qst(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.SelfOverlap(th, t_grid, norigins=global_args['norigins'])
+        _filter(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.SelfOverlap, ids, th, t_grid,
@@ -326,7 +337,8 @@ def qt(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins'])
+        _filter(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.CollectiveOverlap, ids, th, t_grid,
@@ -339,8 +351,7 @@ def ba(input_file, dtheta=4.0, grandcanonical=False, *input_files, **global_args
         th._grandcanonical = grandcanonical
 
         cf = pp.BondAngleDistribution(th, dtheta=dtheta, norigins=global_args['norigins'])
-        if global_args['filter'] is not None:
-            cf = pp.Filter(cf, global_args['filter'])
+        cf = _filter(cf, global_args)
         cf.do(update=global_args['update'])
 
         ids = distinct_species(th[0].particle)
-- 
2.43.0


From c24820e8de92899a2ff7c1bf1b918a37f23c5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 71/88] fix: block size is determined anew when skipping frames
 (C18)

---
 atooms/postprocessing/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 06e67e5..2b4502c 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -37,6 +37,9 @@ def _get_trajectories(input_files, args):
                 sl = slice(sl_start, sl_stop, sl.step)
             if sl != slice(None, None, 1):
                 ts = Sliced(th, sl)
+                # The size of the blocks in frames changes when skipping frames
+                if sl.step not in (None, 1):
+                    ts._block_size = None
             else:
                 ts = th
             yield ts
-- 
2.43.0


From 404df5eb34681f7aba39ff9174a41eb9eab3934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 72/88] fix: do not fold the first frame twice with fix_cm and
 a cached trajectory

---
 atooms/postprocessing/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 9945350..1e83f07 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -366,7 +366,9 @@ class Correlation(object):
 
         # Read everything except unfolded trajectories
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
-            ids = distinct_species(th[0].particle)
+            # Read each frame of the unfolded trajectory only once:
+            # folding modifies the particles, which may be cached
+            ids = distinct_species(self.trajectory[0].particle)
             for s in progress(th):
                 # Apply filter if there is one
                 if len(self._cbk) > 0:
-- 
2.43.0


From 55c1645529cd9284d0a12dd798a6ac5dafcebee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 73/88] fix: feqc misses roots lying on the first or last entry

---
 atooms/postprocessing/helpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9c10d2b..ab6081d 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -101,11 +101,14 @@ def feqc(x, f, fstar):
     Find first root of f=f(x) for data sets.
 
     Given two lists x and f, it returns the value of xstar for which
-    f(xstar) = fstar. Raises an ValueError if no root is found.
+    f(xstar) = fstar, as well as the index of the first entry at or
+    beyond the root. Returns (None, None) if no root is found.
     """
     s = f[0] - fstar
+    if s == 0.0:
+        return x[0], 0
     for i in range(min(len(x), len(f))):
-        if (f[i] - fstar) * s < 0.0:
+        if (f[i] - fstar) * s <= 0.0:
             # Linear interpolation
             dxf = (f[i] - f[i-1]) / (x[i] - x[i-1])
             xstar = x[i-1] + (fstar - f[i-1]) / dxf
-- 
2.43.0


From da5ce1e93e0d81de6ef718e69cfa74f8539eee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 74/88] fix: bond angles with an empty group of neighbors

The kernels were called with an array of positions of the wrong shape and
read beyond its end.
---
 atooms/postprocessing/ba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 17a6736..868092c 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -93,6 +93,9 @@ class BondAngleDistribution(Correlation):
                 self.analysis['cutoff distance {}-{}'.format(isp, jsp)] = self.rcut[isp, jsp]
 
         for i in progress(origins):
+            # Skip if there are no particles to make bonds with
+            if len(self._pos_1[i]) == 0:
+                continue
             system = self.trajectory[i]
             side = system.cell.side  # this should not be affected by filters
             # system = change_species(system, 'F')  # species are in fortran style
-- 
2.43.0


From 09fcc4e9ec2e7efb7b277bc39047cc2b8bd0812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 75/88] fix: optimized chi4 reads beyond the arrays if the
 number of particles changes

Raise an error, like Chi4SelfOverlap does.
---
 atooms/postprocessing/chi4t.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 6007557..416f496 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -114,6 +114,9 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
             raise
 
         def f(x, y):
+            # The kernel does not check it
+            if x.shape != y.shape:
+                raise ValueError('number of particles is not constant')
             return compute.self_overlap(x, y, self.a_square)
 
         self._reset()
-- 
2.43.0


From 966af685e0ce702484abfe2908544c3066b5038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 76/88] fix: refuse g(r) grids which are not increasing in the
 optimized version

The linked-cells kernels divide by the spacing of the grid and access the
histogram out of bounds.
---
 atooms/postprocessing/gr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 624f10c..1945dec 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -226,6 +226,8 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         ndims = system.number_of_dimensions
         self._setup_grid(system)
         dr = self.grid[1] - self.grid[0]
+        if dr <= 0:
+            raise ValueError('the grid must be increasing')
 
         # The f90 kernels assume that the bins start at r=0. With a
         # different grid, we fall back on the legacy calculation
-- 
2.43.0


From d3088c20d48d05aba83efce73afdc8ebbd41eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 77/88] fix: stress autocorrelation with the frames, dimensions
 and time origins of the trajectory

Trajectories have no samples attribute, the number of dimensions was fixed,
the masses were those of the first frame and norigins was ignored.
---
 atooms/postprocessing/sacf.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index 9ba7464..0f9dea6 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -26,13 +26,14 @@ class StressAutocorrelation(Correlation):
         self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins not in ('1', 1))
 
     def _get_stress(self):
-        ndims = 3
-        p = self.trajectory.read(0).particle
-        mass = numpy.array([pi.mass for pi in p])
         self._stress = []
-        for i in self.trajectory.samples:
-            s = self.trajectory.read(i).interaction.stress
-            smk = numpy.zeros(ndims)
+        for i in range(len(self.trajectory)):
+            system = self.trajectory.read(i)
+            s = system.interaction.stress
+            mass = numpy.array([pi.mass for pi in system.particle])
+            ndims = self._vel[i].shape[1]
+            # Off-diagonal components
+            smk = numpy.zeros(ndims * (ndims - 1) // 2)
             m = 0
             for j in range(ndims):
                 for k in range(j+1, ndims):
@@ -46,7 +47,7 @@ class StressAutocorrelation(Correlation):
 
         self._get_stress()
         V = self.trajectory.read(0).cell.volume
-        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.trajectory.block_size,
+        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._stress)
         self.value = [x / V for x in self.value]
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 8f86748078f2d2c293377896f519245573f639e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:21 +0000
Subject: [PATCH 78/88] fix: processes writing the same output at the same time
 do not use the same temporary file

---
 atooms/postprocessing/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 1e83f07..ac6b585 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -4,6 +4,7 @@
 """Base correlation function."""
 
 import os
+import uuid
 import logging
 from collections import defaultdict
 from contextlib import contextmanager
@@ -685,7 +686,8 @@ class Correlation(object):
                 yield fh
             return
 
-        tmp = path + '.tmp'
+        # Other processes may be writing the same file
+        tmp = '%s.%s.tmp' % (path, uuid.uuid4().hex[:8])
         try:
             with open(tmp, 'w') as fh:
                 yield fh
-- 
2.43.0


From 955fe0b316257cf84dca38d75d4f7ddc198c08ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 79/88] fix: unfolded positions of two-body correlations
 account for those of the trajectory and for the center of mass

---
 atooms/postprocessing/correlation.py | 32 +++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index ac6b585..13803af 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -383,6 +383,15 @@ class Correlation(object):
                     _ids = numpy.array([ids.index(_) for _ in _ids], dtype=numpy.int32)
                     self._ids.append(_ids)
 
+        self._pos_unf = self._read_unfolded()
+
+    def _read_unfolded(self, i=0):
+        """
+        Return the unfolded positions at different time frames as a list
+        of numpy array, using filter `i` if there is one.
+        """
+        pos_unf = []
+
         # Read unfolded positions if requested. We unfold the trajectory
         # if unfolded positions are not available in the trajectory
         if 'pos-unf' in self.phasespace:
@@ -406,17 +415,18 @@ class Correlation(object):
                         cm /= mtot
                     # Apply filter if there is one
                     # This must be done after the CM has been computed
-                    if len(self._cbk) > 0:
-                        s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
+                    if len(self._cbk) > i:
+                        s = self._cbk[i](s, *self._cbk_args[i], **self._cbk_kwargs[i])
                     # Subtract CM. We must not do it in-place, because
                     # the trajectory may cache the particles
-                    self._pos_unf.append(s.dump('particle.position_unfolded') - cm)
+                    pos_unf.append(s.dump('particle.position_unfolded') - cm)
             else:
                 for s in progress(th):
                     # Apply filter if there is one
-                    if len(self._cbk) > 0:
-                        s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
-                    self._pos_unf.append(s.dump('pos'))
+                    if len(self._cbk) > i:
+                        s = self._cbk[i](s, *self._cbk_args[i], **self._cbk_kwargs[i])
+                    pos_unf.append(s.dump('pos'))
+        return pos_unf
 
     def _setup_weight_onebody(self):
         """
@@ -482,6 +492,8 @@ class Correlation(object):
             self._vel_1 = self._vel
             self._ids_0 = self._ids
             self._ids_1 = self._ids
+            self._pos_unf_0 = self._pos_unf
+            self._pos_unf_1 = self._pos_unf
             return
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
@@ -509,12 +521,8 @@ class Correlation(object):
                     self._ids_1.append(_ids_1)
 
         # Dump unfolded positions if requested
-        if 'pos-unf' in self.phasespace:
-            for s in progress(Unfolded(self.trajectory)):
-                s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
-                s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
-                self._pos_unf_0.append(s0.dump('pos'))
-                self._pos_unf_1.append(s1.dump('pos'))
+        self._pos_unf_0 = self._read_unfolded(0)
+        self._pos_unf_1 = self._read_unfolded(1)
 
     def compute(self):
         """
-- 
2.43.0


From 4f80bbc95314304b369c57409b1a4ef07426619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:14 +0000
Subject: [PATCH 80/88] fix: update with an output path and a trajectory that
 is not on disk computes

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 13803af..9cc82c2 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -299,7 +299,7 @@ class Correlation(object):
         """Check if the trajectory file is newer than the output file"""
         need = True
         # There is nothing on disk to compare with
-        if self._output_file is None:
+        if self._output_file is None or self.trajectory.filename is None:
             return need
         if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
             if os.path.getmtime(self.trajectory.filename) < \
-- 
2.43.0


From db949916aa13d13bc792487e65a049e26ebbc1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:14 +0000
Subject: [PATCH 81/88] fix: an output that is a symbolic link is followed,
 instead of being replaced

---
 atooms/postprocessing/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 9cc82c2..00a2b07 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -694,6 +694,8 @@ class Correlation(object):
                 yield fh
             return
 
+        # Links are followed
+        path = os.path.realpath(path)
         # Other processes may be writing the same file
         tmp = '%s.%s.tmp' % (path, uuid.uuid4().hex[:8])
         try:
-- 
2.43.0


From 68fade063dbad8730371673de61ecd8c63a8b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:14 +0000
Subject: [PATCH 82/88] fix: output path given by the user for a trajectory
 that is not on disk

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 00a2b07..9a7db80 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -208,7 +208,7 @@ class Correlation(object):
         self.comments = None  # can be modified by user at run time
         self.tag = ''
         self.tag_description = 'the whole system'
-        if self.trajectory.filename is None:
+        if self.trajectory.filename is None and output_path is None:
             self.output_path = None
         else:
             self.output_path = output_path if output_path is not None else core.pp_output_path
-- 
2.43.0


From 6f386dbad0d4744cf10d94a6b32ae6effe4fd1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:56 +0000
Subject: [PATCH 83/88] fix: linked cells are adjusted when the periodic
 directions change

---
 atooms/postprocessing/linkedcells.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 13505ca..639ea40 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -140,10 +140,15 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        # Adjust the subcells again if the box changed or if we need all
-        # pairs and the current map only accounts for half of them
+        # Adjust the subcells again if the box or its periodic directions
+        # changed or if we need all pairs and the current map only accounts
+        # for half of them
         newton = other is None and newton
-        if not self._is_adjusted or numpy.any(self.box != box) or (self._newton and not newton):
+        if periodic is None:
+            periodic = [True] * len(box)
+        periodic = numpy.array(periodic)
+        if not self._is_adjusted or numpy.any(self.box != box) or \
+           numpy.any(self.periodic != periodic) or (self._newton and not newton):
             self.adjust(box, newton=newton, periodic=periodic)
             self._newton = newton
             self._is_adjusted = True
-- 
2.43.0


From e64763ed8587fdbb5396e15e89c50c8c21f9144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 84/88] fix: subtract the mean from integer weights

---
 atooms/postprocessing/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 9a7db80..45943d2 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -106,8 +106,8 @@ def _subtract_mean(weight):
     for current_field in weight:
         mean += current_field.mean()
     mean /= len(weight)
-    for current_field in weight:
-        current_field -= mean
+    # Not in-place on the arrays, which may be of integers
+    weight[:] = [current_field - mean for current_field in weight]
     return weight
 
 
-- 
2.43.0


From e42f8eb54f41be6f8579a9f33b3dd78f475684f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 85/88] fix: center of mass of integer unfolded positions

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 45943d2..1cb52d3 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -405,7 +405,7 @@ class Correlation(object):
                     # particle.position_unfolded because atooms.system
                     # methods work with particle.position
                     # TODO: can be revised with atooms 3.4.0
-                    cm = numpy.zeros_like(s.particle[0].position_unfolded)
+                    cm = numpy.zeros(len(s.particle[0].position_unfolded))
                     if self._fix_cm:
                         # Compute CM using unfolded positions, which is safe
                         mtot = 0.0
-- 
2.43.0


From 496f9b451332efc3a13397bd2dfed737ca0e96c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 86/88] fix: integer widths of the bins of distances and angles

---
 atooms/postprocessing/ba.py | 4 ++--
 atooms/postprocessing/gr.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 868092c..bab4a2c 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -59,8 +59,8 @@ class BondAngleDistribution(Correlation):
 
     def __init__(self, trajectory, norigins=None, dtheta=4.0, rcut=None):
         Correlation.__init__(self, trajectory, None, norigins=norigins)
-        self.dtheta = dtheta
-        self.grid = linear_grid(0.0, 180.0, dtheta)  # reassign grid anyway
+        self.dtheta = float(dtheta)  # integers would be numbers of bins
+        self.grid = linear_grid(0.0, 180.0, self.dtheta)  # reassign grid anyway
         self.rcut = rcut
 
     def _compute(self):
diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 1945dec..77c96d3 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -92,7 +92,7 @@ class RadialDistributionFunctionLegacy(Correlation):
 
     def __init__(self, trajectory, rgrid=None, norigins=None, dr=0.04, ndim=-1, rmax=-1.0):
         Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
-        self.dr = dr
+        self.dr = float(dr)  # integers would be numbers of bins
         self.rmax = rmax
         """
         Limit distance binning up to `rmax`. It may enable linked cells if
-- 
2.43.0


From 974d143f6e3312600541175f809a2fff8b7843bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 87/88] fix: numbers of grid points given as numpy integers

---
 atooms/postprocessing/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index ab6081d..d4b76cc 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -1,9 +1,10 @@
 import copy
+import numbers
 
 
 def linear_grid(min_val, max_val, delta):
     """Linear grid."""
-    if isinstance(delta, int):
+    if isinstance(delta, numbers.Integral):
         n = delta
         if n > 1:
             delta = (max_val - min_val) / (n-1)
-- 
2.43.0


From 509554a7e3ba469e456e8b3661365967417d61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:56 +0000
Subject: [PATCH 88/88] fix: default time grids of vacf and self overlap for
 the path to a trajectory

---
 atooms/postprocessing/qt.py   | 2 +-
 atooms/postprocessing/vacf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index 35b6222..13cf90a 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -73,7 +73,7 @@ class SelfOverlap(Correlation):
                  tsamples=60):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
-            self.grid = logx_grid(0.0, trajectory.total_time * 0.75, tsamples)
+            self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
         self.a_square = a**2
 
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 7d61f31..4cc556e 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -23,7 +23,7 @@ class VelocityAutocorrelation(Correlation):
     def __init__(self, trajectory, tgrid=None, tsamples=30, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
-            self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
+            self.grid = linear_grid(0.0, self.trajectory.total_time * 0.10, tsamples)
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
 
     def _compute(self):
-- 
2.43.0

