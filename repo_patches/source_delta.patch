From 59802e47663a68083292767c5e74bd283ef0d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 01/34] fix: do not import integrators that do not exist, so
 that particles can be imported

---
 particles/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 75db7ed..28a10a8 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -12,8 +12,8 @@ import os
 import environment
 from common import GRID, UNITS, kinematics, statistics as STATISTICS
 from common.integrators import (
-    adams_bashforth_correction, adams_moulton_solver, implicit_euler, backward_differentiation, heun_method,
-    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER, MAX_BACKWARD_DIFF_ORDER
+    adams_bashforth_correction, adams_moulton_solver, implicit_euler,
+    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER
 )
 from common.utils import Dynamic2DArray, DynamicRecArray
 from scipy.integrate import simps
-- 
2.43.0


From 1db5117859b9338a848b14ebe0b6c5d0fc8a48ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 02/34] fix: turn the Adams-Moulton prediction of f into a
 collision rate

---
 particles/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 28a10a8..68bf414 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -320,8 +320,10 @@ class DistributionParticle(AbstractParticle):
             # Adams-Moulton method
             fs = list(self.data['collision_integral'][-MAX_ADAMS_MOULTON_ORDER:])
 
-            I_coll = adams_moulton_solver(y=self.distribution(ps), fs=fs,
-                                            A=AB, B=B, h=self.params.h)
+            # `AB` is the full right-hand side A + B f, and the solver predicts the new value of f
+            f = self.distribution(ps)
+            f_new = adams_moulton_solver(y=f, fs=fs, A=AB - B * f, B=B, h=self.params.h)
+            I_coll = (f_new - f) / self.params.h
 
             # # Backward differentiation method
             # ys = list(self.data['distribution'][-MAX_BACKWARD_DIFF_ORDER:])
-- 
2.43.0


From 4735fe48941271346e7256bd743950352c480797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 03/34] fix: do not count f twice in the linear part of decay
 collision integrals

---
 particles/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 68bf414..56826cb 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -309,7 +309,9 @@ class DistributionParticle(AbstractParticle):
                     Bs.append(B)
                 elif integral.kind in [CollisionIntegralKind.F_f_vacuum_decay, CollisionIntegralKind.F_decay]:
                     G = integral.integrate(ps, stepsize=self.params.h)
-                    Bs.append(G)
+                    # `G` is already multiplied by f: the coefficient of f does not include it
+                    f = self._distribution
+                    Bs.append(numpy.divide(G, f, out=numpy.zeros(len(G)), where=f > 0))
                     ABs.append(G)
                 else:
                     ABs.append(integral.integrate(ps, stepsize=self.params.h))
-- 
2.43.0


From 387bc2ff4b622265b4193bbf4692c062f4803a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 04/34] fix: compare the scaled collision integral with False
 instead of taking the truth value of an array

---
 interactions/four_particle/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 186f4ef..31734da 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -188,7 +188,7 @@ class FourParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.append(fullstack, slice_2)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        if not scaled_output:
+        if scaled_output is False:
             return kinematics.return_function(self, fullstack)
         else:
             fullstack = scaled_output
-- 
2.43.0


From 04c622c5906b4b158747cfd04a48ce6fffd0976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 05/34] fix: pass the integral, not its reaction, to
 reaction_type for fast decays

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index eb87f66..2eb3f37 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -411,7 +411,7 @@ def Icoll_fast_decay(particle, ps):
 
     for index, Ff in enumerate(Ffs_temp):
         integral = particle.collision_integrals[index]
-        if utils.reaction_type(integral.reaction).DECAY: # line not necessary
+        if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
                 if Counter(sym) == Counter(key):
-- 
2.43.0


From d00c04a8f847002914e0a3eaaf0bf5b17285cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 06/34] fix: use an integer number of points when thinning out
 the momentum grid

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 2eb3f37..7321ab3 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -352,7 +352,7 @@ def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
-        steps = np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))
+        steps = int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)))
         interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
         ps = ps[interp_pos]
         interpolate = True
-- 
2.43.0


From 22d62b0d8cec75f456a0c95a7c62b50dd8a8dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 07/34] fix: keep the number of degrees of freedom above the
 QCD scale in the decoupling temperature

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 7321ab3..b32dc56 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    if muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass < CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From 8cc541c6229e4fc1f0ac01241108e1d2eefef27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 08/34] fix: index records of DynamicRecArray from the end with
 negative numbers

---
 common/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 2d602ab..07e032b 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -247,10 +247,7 @@ class DynamicRecArray(object):
     def __getitem__(self, index):
         if index in self.columns:
             return self._data[index][:self.length]
-        index = int(index)
-        if index < 0:
-            index = self.length+1-index
-        return self._data[:][index]
+        return self.data[int(index)]
 
     def append(self, rec):
         if isinstance(rec, dict):
-- 
2.43.0


From b2b761b3919d5f7266cb972b902ab80823cfd46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 09/34] fix: restore the NumPy print options when the body of
 printoptions raises

---
 common/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 07e032b..83fc9a7 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -95,8 +95,10 @@ class benchmark(object):
 def printoptions(*args, **kwargs):
     original = numpy.get_printoptions()
     numpy.set_printoptions(*args, **kwargs)
-    yield
-    numpy.set_printoptions(**original)
+    try:
+        yield
+    finally:
+        numpy.set_printoptions(**original)
 
 
 def getenv(var, default=None):
-- 
2.43.0


From 8d807f5381f5e730402a71cbb52fdf95e449045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 10/34] fix: keep no more than `length` items in ring_deque

---
 common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils.py b/common/utils.py
index 83fc9a7..6cd9c32 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -57,7 +57,7 @@ class ring_deque(deque):
 
     def append_more(self, data):
 
-        if len(self) > self.length:
+        if len(self) >= self.length:
             self.popleft()
 
         self.max = max(data, self.max)
-- 
2.43.0


From 14c774fc4ee3642ab47dc16af81eb348e8bd0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 11/34] fix: take no history in the first order Adams-Moulton
 solver

---
 common/integrators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/integrators/__init__.py b/common/integrators/__init__.py
index 1860899..146ebc3 100644
--- a/common/integrators/__init__.py
+++ b/common/integrators/__init__.py
@@ -104,7 +104,7 @@ def adams_moulton_solver(y, fs, A, B, h, order=None):
         order = min(MAX_ADAMS_MOULTON_ORDER, len(fs) + 1)
 
     bs, divider = ADAMS_MOULTON_COEFFICIENTS[order]
-    fs = fs[-(order-1):] + [A]
+    fs = fs[len(fs) - (order - 1):] + [A]
     assert len(fs) == order, (len(fs), order)
 
     return (
-- 
2.43.0


From 8fccd87f1f64524613dd4978e37cafe911f62616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 12/34] fix: interpolate inside the interval that contains the
 point

---
 common/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index cff3255..b6ae64e 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -310,12 +310,15 @@ def linear_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
+        # `searchsorted` returns the upper end of the interval containing `x`
+        index = max(index - 1, 0)
+
         # Determine the closest grid points
         i_low = index
         x_low = grid[i_low]
@@ -336,12 +339,15 @@ def cubic_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
+        # `searchsorted` returns the upper end of the interval containing `x`
+        index = max(index - 1, 0)
+
         if index == 0 or index == len(grid) - 2:
             # Determine the closest grid points
             i_low = index
-- 
2.43.0


From aab87ae996f468e208f7d6e0d262660b748b3926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 13/34] fix: use the mixing angle of the lepton flavour for
 charged vector mesons

---
 library/NuMSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index d124624..9fde38b 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -322,7 +322,7 @@ class interactions(object):
                                                                kind=kind)
 
                         if particle.type == "vector":
-                            inters += cls.charged_vector_meson(theta=thetas[neutrino.flavour],
+                            inters += cls.charged_vector_meson(theta=thetas[lepton.flavour],
                                                                sterile=sterile,
                                                                lepton=lepton,
                                                                meson=particle,
-- 
2.43.0


From 30bc7a990076150aa6c956b75c942de7cd02ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 14/34] fix: correct the sign of the electric charge of the
 proton

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 8c60e28..375ebb4 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -82,7 +82,7 @@ class particles(object):
             'mass': 938.272046 * UNITS.MeV,
             'dof': 4,
             'majorana': False,
-            'Q': -1
+            'Q': 1
         }
         neutral_pion = {
             'name': 'Neutral pion',
-- 
2.43.0


From 38e5826d48ab0c9883b70b368f37fc8788e264bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 15/34] fix: read the nucleon rates of the last KAWANO record
 by column name

---
 semianalytic.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/semianalytic.py b/semianalytic.py
index 640e4c1..4602bef 100644
--- a/semianalytic.py
+++ b/semianalytic.py
@@ -8,10 +8,7 @@ def step_monitor(universe):
     from copy import deepcopy
 
     if not hasattr(universe, 'neutron_decoupling_parameters') and len(universe.kawano_data):
-        print([field[0] for field in universe.kawano_data.data.dtype[-6:]])
-        rates = universe.kawano_data.data[-1][
-            [field[0] for field in universe.kawano_data.data.dtype[-6:]]
-        ]
+        rates = [universe.kawano_data.data[-1][name] for name in universe.kawano_data.columns[-6:]]
         neutron_equilibration = (sum(rates[0::2]) / sum(rates[1::2]))
         if neutron_equilibration > 10 or neutron_equilibration < 0.1:
             universe.neutron_decoupling_parameters = deepcopy(universe.params)
-- 
2.43.0


From ee4908c6d65fcbebdcfaed31c35dc27ea78a28b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 16/34] fix: give every universe its own evolution history

---
 evolution.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/evolution.py b/evolution.py
index c0506af..2cb9064 100755
--- a/evolution.py
+++ b/evolution.py
@@ -33,17 +33,7 @@ class Universe(object):
 
     step_monitor = None
 
-    data = utils.DynamicRecArray([
-        ['aT', 'MeV', UNITS.MeV],
-        ['T', 'MeV', UNITS.MeV],
-        ['a', None, 1],
-        ['x', 'MeV', UNITS.MeV],
-        ['t', 's', UNITS.s],
-        ['rho', 'MeV^4', UNITS.MeV**4],
-        ['N_eff', None, 1],
-        ['fraction', None, 1],
-        ['S', 'MeV^3', UNITS.MeV**3]
-    ])
+    data = None
 
     def __init__(self, folder=None, params=None, max_log_rate=2):
         """
@@ -68,6 +58,19 @@ class Universe(object):
 
         self.fraction = 0
 
+        # Every universe records its own history
+        self.data = utils.DynamicRecArray([
+            ['aT', 'MeV', UNITS.MeV],
+            ['T', 'MeV', UNITS.MeV],
+            ['a', None, 1],
+            ['x', 'MeV', UNITS.MeV],
+            ['t', 's', UNITS.s],
+            ['rho', 'MeV^4', UNITS.MeV**4],
+            ['N_eff', None, 1],
+            ['fraction', None, 1],
+            ['S', 'MeV^3', UNITS.MeV**3]
+        ])
+
         self.step = 1
 
     def init_kawano(self, datafile='s4.dat', **kwargs):
-- 
2.43.0


From 20e979062235755d5021f091c4837f906bcb3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 17/34] fix: do not write the KAWANO input file when there is
 no output folder

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 2cb9064..a12a6f7 100755
--- a/evolution.py
+++ b/evolution.py
@@ -350,7 +350,8 @@ class Universe(object):
 
             if self.log_throttler.output:
                 print("KAWANO", self.kawano_data.row_repr(-1, names=True))
-            self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
+            if self.kawano_log:
+                self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
 
     def init_log(self, folder=''):
         self.logfile = utils.ensure_path(os.path.join(self.folder, 'log.txt'))
-- 
2.43.0


From 68427a45788fb8c46fde02f07de214248bec548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 18/34] fix: make the orthogonal polynomials module work with
 Python 3 and current SciPy

---
 common/orthopoly.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/common/orthopoly.py b/common/orthopoly.py
index 52fd1f4..8badc81 100644
--- a/common/orthopoly.py
+++ b/common/orthopoly.py
@@ -32,6 +32,8 @@ from __future__ import division
 import numpy as np
 import scipy as sp
 import scipy.linalg
+import scipy.special
+from functools import reduce
 
 
 def gauss(alpha,beta):
@@ -55,7 +57,7 @@ def gauss(alpha,beta):
 
     A = np.vstack((np.sqrt(beta),alpha))
     x,V = eig_banded(A,lower=False)
-    w = beta[0]*sp.real(sp.power(V[0,:],2))
+    w = beta[0]*np.real(np.power(V[0,:],2))
     return x,w
 
 
@@ -226,7 +228,7 @@ def polyval(alpha,beta,x):
     P[:,0] = 1
     P[:,1] = (x-alpha[0])*P[:,0]
 
-    for k in xrange(1,N):
+    for k in range(1,N):
          P[:,k+1] = (x-alpha[k])*P[:,k] - beta[k]*P[:,k-1]
 
     return P
@@ -254,7 +256,7 @@ def jacobi(N,a,b,x,NOPT=1):
         P[:,1] = 0.5*(a-b+(apb+2)*x)
 
     if N>1:
-        for k in xrange(2,N+1):
+        for k in range(2,N+1):
             k2 = 2*k
             g = k2+apb
             g1 = g-1
-- 
2.43.0


From 724e660a71569a8abb95d90ede73040777b6c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 19/34] fix: do not let the integration bounds of one momentum
 depend on the others

---
 interactions/four_particle/cpp/integral.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8390b80..54d7af3 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -613,8 +613,10 @@ std::vector<dbl> integration(
     // Determine the integration bounds
     auto reaction_type = get_reaction_type(reaction);
 
+    const dbl grid_max_1 = max_1;
+
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, min_2, max_2, max_3)
+    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, min_2, max_2, max_3, grid_max_1)
     for (size_t i = 0; i < ps.size(); ++i) {
         dbl p0 = ps[i];
 
@@ -633,12 +635,8 @@ std::vector<dbl> integration(
             else {
                 min_1 = sqrt(min2);
             }
-            if (max_1 > 3. * min_1) {
-                max_1 = max_1;
-            }
-            else {
-                max_1 = 3. * min_1;
-            }
+            // `max_1` is shared by all momenta handled by this thread: keep the input value
+            max_1 = std::max(grid_max_1, 3. * min_1);
         }
         if (reaction_type == Kinematics::CREATION) {
             if (reaction[3].specie.m == 0.) {continue; }
-- 
2.43.0


From c0e81740ab49b0281538cb0e1c85992e74a20e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:26 +0000
Subject: [PATCH 20/34] fix: express the metre and the newton in natural units

The metre was converted with h c instead of hbar c, so that it did not agree
with the second, the kilogram and the newton, and the newton was off by 1%.
---
 common/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index b6ae64e..a463a8f 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -28,8 +28,8 @@ class UNITS(object):
         UNITS.TeV = UNITS.GeV * 1e3
         UNITS.s = 1e22 / 6.582119 / UNITS.MeV
         UNITS.kg = 1e27 / 1.782662 * UNITS.GeV
-        UNITS.m = 1e15 / 1.239842 / UNITS.GeV
-        UNITS.N = 1e-5 / 8.19 * UNITS.GeV**2
+        UNITS.m = 1e15 / 0.19732698 / UNITS.GeV
+        UNITS.N = 1e-5 / 8.11940 * UNITS.GeV**2
 
         # Temperature: $10^9 K$
         UNITS.K9 = UNITS.MeV / 11.6045
-- 
2.43.0


From 222c8f17573af552b21d739cdefc5c65e9a0f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 21/34] fix: return 0 instead of NaN next to an empty grid
 point

With -ffast-math the isnan() check is removed, and 0 * inf in the exponential
interpolation reached the collision integrals.
---
 interactions/four_particle/cpp/integral.cpp  | 5 +++++
 interactions/three_particle/cpp/integral.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 54d7af3..d2fc5be 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -83,6 +83,11 @@ dbl distribution_interpolation(const std::vector<dbl> &grid,
     dbl g_hi = distribution[i_hi],
         g_lo = distribution[i_lo];
 
+    // The NaN check below is optimized away by `-ffast-math`
+    if (g_hi == 0. || g_lo == 0.) {
+        return 0.;
+    }
+
     g_hi = (1. / g_hi - eta);
     if (g_hi > 0) {
         g_hi = log(g_hi);
diff --git a/interactions/three_particle/cpp/integral.cpp b/interactions/three_particle/cpp/integral.cpp
index f5129a0..63a71a0 100644
--- a/interactions/three_particle/cpp/integral.cpp
+++ b/interactions/three_particle/cpp/integral.cpp
@@ -83,6 +83,11 @@ dbl distribution_interpolation(const std::vector<dbl> &grid,
     dbl g_hi = distribution[i_hi],
         g_lo = distribution[i_lo];
 
+    // The NaN check below is optimized away by `-ffast-math`
+    if (g_hi == 0. || g_lo == 0.) {
+        return 0.;
+    }
+
     g_hi = (1. / g_hi - eta);
     if (g_hi > 0) {
         g_hi = log(g_hi);
-- 
2.43.0


From 028b8050ec8bdd505686cc9cd5e6cf52fd3fa866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 22/34] fix: export tables with a single column one record per
 line

---
 common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils.py b/common/utils.py
index 6cd9c32..1370aef 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -296,6 +296,6 @@ class DynamicRecArray(object):
 
         numpy.savetxt(
             f,
-            self.data.view((numpy.float_, len(self._data.dtype))) / self.units[None, :],
+            self.data.view(numpy.float_).reshape(self.length, len(self.columns)) / self.units[None, :],
             delimiter='\t', header='\t'.join(heading)
         )
-- 
2.43.0


From fa48f41bf70ab51db487070f1f4d0ad2625bd6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:57 +0000
Subject: [PATCH 23/34] fix: do not overflow in the temperature equation terms
 of heavy particles

---
 particles/IntermediateParticle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/IntermediateParticle.py b/particles/IntermediateParticle.py
index 212a55a..a676ef1 100644
--- a/particles/IntermediateParticle.py
+++ b/particles/IntermediateParticle.py
@@ -131,8 +131,8 @@ def Int(particle, y_power=2):
     else:
         legendre = particle.dof / 2. / numpy.pi**2 * integrators.integrate_1D(
             lambda y: (
-                y**y_power * numpy.exp(particle.conformal_energy(y) / particle.params.aT)
-                / (numpy.exp(particle.conformal_energy(y) / particle.params.aT) + particle.eta)**2
+                y**y_power * numpy.exp(-particle.conformal_energy(y) / particle.params.aT)
+                / (1. + particle.eta * numpy.exp(-particle.conformal_energy(y) / particle.params.aT))**2
             ),
             (particle.grid.MIN_MOMENTUM, particle.grid.MAX_MOMENTUM)
         )[0]
-- 
2.43.0


From ed3cb5b5b4c0ab080e8ca84554696cdf0ae9c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:57 +0000
Subject: [PATCH 24/34] fix: do not divide collision integrals by x twice when
 the step is linear in x

---
 particles/NonEqParticle.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/particles/NonEqParticle.py b/particles/NonEqParticle.py
index 792f093..c5271b6 100755
--- a/particles/NonEqParticle.py
+++ b/particles/NonEqParticle.py
@@ -14,6 +14,14 @@ from common.integrators import lambda_integrate
 name = 'non-equilibrium'
 aT = 0
 adec = 0
+
+
+def step_variable(particle):
+    """ Collision integrals are derivatives with respect to ln(a) or x, and the temperature
+        equation is written for x """
+    return particle.params.x if environment.get('LOGARITHMIC_TIMESTEP') else 1.
+
+
 if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
     def density(particle):
@@ -111,7 +119,7 @@ if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
 
     def numerator(particle):
-        integral = linear_interpolation(particle.collision_integral / particle.params.x,
+        integral = linear_interpolation(particle.collision_integral / step_variable(particle),
                                         particle.grid.TEMPLATE)
         return lambda_integrate(particle.grid.BOUNDS)(lambda particle: numpy.vectorize(lambda y: (
             -1. * particle.dof / 2. / numpy.pi**2
@@ -201,7 +209,7 @@ else:
         return simps((
             -1. * particle.dof / 2. / numpy.pi**2
             * temp**2 * particle.conformal_energy(temp)
-            * particle.collision_integral / particle.params.x), temp
+            * particle.collision_integral / step_variable(particle)), temp
         )
 
 
-- 
2.43.0


From dd0dd4d7cdb22195c74f31fef80c6aef03c1ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:27 +0000
Subject: [PATCH 25/34] fix: do not take the initial record for a right-hand
 side of the temperature equation

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index a12a6f7..3777f0d 100755
--- a/evolution.py
+++ b/evolution.py
@@ -188,7 +188,8 @@ class Universe(object):
             self.step_monitor(self)
 
         if environment.get('ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
-            fs = (list(self.data['fraction'][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
+            # The first record holds the initial conditions and no right-hand side
+            fs = (list(self.data['fraction'][1:][-MAX_ADAMS_BASHFORTH_ORDER:]) + [self.fraction])
 
             self.params.aT += adams_bashforth_correction(fs=fs, h=self.params.h)
         else:
-- 
2.43.0


From 9bda71ee9b4da3f4360d0bd2666f73a4447ff27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:29 +0000
Subject: [PATCH 26/34] fix: add the decay of a meson once when it is also a
 product of an earlier one

---
 library/SM.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/SM.py b/library/SM.py
index 375ebb4..9fc18db 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -951,6 +951,9 @@ class interactions(object):
                                                     kind=kind)
 
         for meson in primary_mesons:
+            if already_there(inters, meson.name):
+                continue
+
             if meson.name == 'Neutral pion':
                 neutral_pion_decay(inters)
 
-- 
2.43.0


From 3e2fb7c1fc3df3ba19e866288f983ec1f7d33cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:29 +0000
Subject: [PATCH 27/34] fix: count every identical product in the creation by
 fast decays

---
 common/kinematics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index b32dc56..35ede32 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -369,7 +369,9 @@ def scaling(interaction, fullstack, constant):
         created = simps(fullstack * constant * dof * grid.TEMPLATE**2, grid.TEMPLATE)
         if created == 0.:
             return False
-        scaling = BR * interaction.reaction[-1].specie.num_creation / created
+        multiplicity = CollisionMultiplier3p(interaction) if len(interaction.reaction) == 3 \
+            else CollisionMultiplier4p(interaction)
+        scaling = BR * multiplicity * interaction.reaction[-1].specie.num_creation / created
         fullstack *= scaling
     return fullstack
 
-- 
2.43.0


From cf76b89689673229e0f591ee88f76c80d0ba98d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:04 +0000
Subject: [PATCH 28/34] fix: keep the number of fast decaying particles when
 they thermalise

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 35ede32..e5b6e30 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -403,7 +403,7 @@ def Icoll_fast_decay(particle, ps):
     if hasattr(particle, 'thermalization'):
         distr_ini = distr_backg + sum(F1s) * particle.params.h
         distr_bef = distr_backg + simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
-                    / (2 * np.pi * particle.conformal_mass * particle.aT)**(3/2) \
+                    * 4 * np.pi / (2 * np.pi * particle.conformal_mass * particle.aT)**(3/2) \
                     * np.exp(-particle.grid.TEMPLATE**2 / (2 * particle.conformal_mass * particle.aT))
 
     else:
-- 
2.43.0


From c3001aa140ee1120e14ac850fb33f288687ce972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:57 +0000
Subject: [PATCH 29/34] fix: take the current temperature at the QCD transition

data.truncate() has removed the last record at this point, so that aT of the
step before was rescaled and the entropy was not conserved (and a universe
with a single record failed).
---
 evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 3777f0d..64b4435 100755
--- a/evolution.py
+++ b/evolution.py
@@ -393,7 +393,7 @@ class Universe(object):
 
         dof_after_qcd = Params.entropic_dof_eq(self)
 
-        self.params.aT = self.data['aT'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
+        self.params.aT *= (dof_before_qcd/dof_after_qcd)**(1/3)
 #        self.params.x = self.data['x'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
 #        self.params.a = self.data['a'][-1] * (dof_before_qcd/dof_after_qcd)**(1/3)
         self.params.update(self.total_energy_density(), self.total_entropy()) # T will be updated here...
-- 
2.43.0


From b2d1d0a9c61ef7e898b53bdc3e909796257d5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 30/34] fix: normalise the derivatives of the Jacobi
 polynomials

The factor of the derivatives of the L2-normalised polynomials lacked the
ratio of the norms.
---
 common/orthopoly.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/orthopoly.py b/common/orthopoly.py
index 8badc81..6bd4d8d 100644
--- a/common/orthopoly.py
+++ b/common/orthopoly.py
@@ -287,8 +287,12 @@ def jacobiD(N,a,b,x,NOPT=1):
         Px = z
     else:
 
-        Px = 0.5*np.hstack((z, jacobi(N-1,a+1,b+1,x,NOPT)* \
-             ((a+b+2+np.arange(N)))))
+        n = np.arange(1,N+1)
+        factor = 0.5*(a+b+1+n)
+        if NOPT == 2:
+            # Ratio of the norms of the polynomials included
+            factor = np.sqrt(n*(a+b+1+n))
+        Px = np.hstack((z, jacobi(N-1,a+1,b+1,x,NOPT)*factor))
     return Px
 
 
-- 
2.43.0


From 5c35d7a6e7c2bae493c655478c5e7acb37c95ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:12 +0000
Subject: [PATCH 31/34] fix: no scattering of massless particles at rest

The phase space of such a reaction vanishes. All momenta lie on the boundary
of the kinematic region, so that the integrand consisted of rounding errors
and the integrator often failed to converge, which aborts the program.
---
 interactions/four_particle/cpp/integral.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index d2fc5be..8e05993 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -632,6 +632,12 @@ std::vector<dbl> integration(
             );
         }
         if (reaction_type == Kinematics::SCATTERING) {
+            // The phase space of a massless particle at rest vanishes, unless the reaction is
+            // exothermic. The integrand is nothing but rounding errors there
+            if (p0 == 0. && reaction[0].specie.m == 0.
+                && reaction[1].specie.m <= reaction[2].specie.m + reaction[3].specie.m) {
+                continue;
+            }
             dbl min = reaction[2].specie.m + reaction[3].specie.m - energy(p0, reaction[0].specie.m);
             dbl min2 = pow(min, 2) - pow(reaction[1].specie.m, 2);
             if (min <= 0 || min2 <= 0) {
-- 
2.43.0


From b3016138e76eabc0777085382380050ca59b36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 32/34] fix: integrate constant four-particle matrix elements
 over the phase space

---
 interactions/four_particle/__init__.py      |  4 +++-
 interactions/four_particle/cpp/integral.cpp | 25 +++++++++++----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 31734da..27847c5 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -160,7 +160,9 @@ class FourParticleIntegral(BoltzmannIntegral):
         stepsize *= constant
 
         if not self.cMs:
-            self.cMs = [M_t(list(M.order), M.K1 / unit, M.K2 / unit, M.K / unit) for M in self.Ms]
+            # Constant matrix elements are dimensionless, the momenta are expressed in units of `aT / a`
+            self.cMs = [M_t(list(M.order), M.K1 / unit, M.K2 / unit, M.K / unit / (params.aT / params.a)**4)
+                        for M in self.Ms]
 
         kinematics.store_energy(self)
 
diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8e05993..e516934 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -302,19 +302,20 @@ dbl integrand_full(
 
     dbl ds = 0.;
 
-    if (Ms[0].K != 0.) {
-        ds += Ms[0].K;
-    }
-
-    else {
-        if (p[0] != 0.) {
-            for (const M_t &M : Ms) {
-                ds += D(p, E, m, M.K1, M.K2, M.order, sides);
+    if (p[0] != 0.) {
+        for (const M_t &M : Ms) {
+            ds += D(p, E, m, M.K1, M.K2, M.order, sides);
+            if (M.K != 0.) {
+                ds += M.K * D1(p[0], p[1], p[2], p[3]);
             }
-            ds /= p[0] * E[0];
-        } else {
-            for (const M_t &M : Ms) {
-                ds += Db(p, E, m, M.K1, M.K2, M.order, sides);
+        }
+        ds /= p[0] * E[0];
+    } else {
+        for (const M_t &M : Ms) {
+            ds += Db(p, E, m, M.K1, M.K2, M.order, sides);
+            // Diverges for massless particles
+            if (M.K != 0. && m[0] != 0.) {
+                ds += M.K * Db1(p[1], p[2], p[3]) / m[0];
             }
         }
     }
-- 
2.43.0


From 5a9fac91aa2b586bc24c94878104447af9cf8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 33/34] fix: nucleon rates of a universe use its own electrons
 and neutrinos

---
 evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evolution.py b/evolution.py
index 64b4435..6fc0d2a 100755
--- a/evolution.py
+++ b/evolution.py
@@ -75,6 +75,7 @@ class Universe(object):
 
     def init_kawano(self, datafile='s4.dat', **kwargs):
         kawano.init_kawano(**kwargs)
+        self.kawano_particles = kawano.particles
         if self.folder:
             self.kawano_log = open(os.path.join(self.folder, datafile), 'w')
             self.kawano_log.write("\t".join([col[0] for col in kawano.heading]) + "\n")
@@ -328,6 +329,8 @@ class Universe(object):
             #     t[s]         x    Tg[10^9K]   dTg/dt[10^9K/s] rho_tot[g cm^-3]     H[s^-1]
             # n nue->p e  p e->n nue  n->p e nue  p e nue->n  n e->p nue  p nue->n e
 
+            # Another universe could have selected its own particles in the meantime
+            self.kawano.particles = self.kawano_particles
             rates = self.kawano.baryonic_rates(self.params.a)
 
             if environment.get('LOGARITHMIC_TIMESTEP'):
-- 
2.43.0


From 9b10e4b72b6298430e41b54c62dc6e1975f03ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 34/34] fix: keep the energy of sterile neutrinos with the
 universe they belong to

---
 common/__init__.py   |  3 +++
 common/kinematics.py | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index a463a8f..6b82b09 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -95,6 +95,9 @@ class Params(object):
 
     h = None
 
+    # Energy up to which decay products of the sterile neutrino have to be followed
+    HNL_energy = None
+
     def __init__(self, **kwargs):
         """ ## Parameters
             Master object carrying the cosmological state of the system and initial conditions """
diff --git a/common/kinematics.py b/common/kinematics.py
index e5b6e30..0102417 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -92,8 +92,8 @@ def four_particle_grid_cutoff_scattering(particle):
 
     if particle.name == 'Sterile neutrino (Dirac)':
         max_mom = particle.grid.MAX_MOMENTUM #3 * particle.params.T
-    elif particle.name != 'Sterile neutrino (Dirac)' and environment.get('HNL_ENERGY'):
-        HNL_energy = float(environment.get('HNL_ENERGY'))
+    elif particle.name != 'Sterile neutrino (Dirac)' and particle.params.HNL_energy:
+        HNL_energy = particle.params.HNL_energy
         max_mom = max(np.sqrt(HNL_energy**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
     else:
         max_mom = environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV
@@ -111,8 +111,8 @@ def four_particle_grid_cutoff_decay(particle):
 
     if particle.name == 'Sterile neutrino (Dirac)':
         max_mom = particle.grid.MAX_MOMENTUM
-    elif particle.name != 'Sterile neutrino (Dirac)' and environment.get('HNL_ENERGY'):
-        HNL_energy = float(environment.get('HNL_ENERGY'))
+    elif particle.name != 'Sterile neutrino (Dirac)' and particle.params.HNL_energy:
+        HNL_energy = particle.params.HNL_energy
         max_mom = max(np.sqrt(HNL_energy**2 - particle.conformal_mass**2), environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV)
     else:
         max_mom = particle.grid.MAX_MOMENTUM
@@ -346,7 +346,7 @@ def CollisionMultiplier3p(interaction):
 
 def store_energy(interaction):
     if interaction.particle.name == 'Sterile neutrino (Dirac)':
-        os.environ['HNL_ENERGY'] = str(np.sqrt((interaction.particle.grid.MAX_MOMENTUM/10)**2 + interaction.particle.conformal_mass**2))
+        interaction.particle.params.HNL_energy = np.sqrt((interaction.particle.grid.MAX_MOMENTUM/10)**2 + interaction.particle.conformal_mass**2)
 
 def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
-- 
2.43.0

