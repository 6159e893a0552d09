From c333d553a45ba11d400daa4beaf853f80a42c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 01/21] fix: let interrupts and exit requests out of
 compute_backtrace

A bare except plus return-in-finally swallowed KeyboardInterrupt and SystemExit:
Ctrl-C during a trace truncated that trace and the run went on to archive it.
---
 oneka/capturezone.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index fb5b410..325235f 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -246,8 +246,7 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
 
             dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
 
-    except:
+    except Exception:
         log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
 
-    finally:
-        return vertices
+    return vertices
-- 
2.43.0


From 03b6cf14fa23b2e454a8588f1dd69f863de7fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 02/21] fix: report premature trace ends in the run log

The module logged to 'oneka.capturezone', which is not below the 'Oneka' logger
the driver attaches the log file to, so the warnings never reached the file.
---
 oneka/capturezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 325235f..19b7966 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -44,7 +44,7 @@ Version
 import logging
 import numpy as np
 
-log = logging.getLogger(__name__)
+log = logging.getLogger('Oneka')
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 29a6725d34d63ae2190ee07cf36f3506f7654558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 03/21] fix: end a trace whose velocity is undefined instead of
 looping forever

A NaN or infinite velocity (e.g. a starting point on top of another well) made
the time step NaN or zero, and the stepping loop never ended.
---
 oneka/capturezone.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 19b7966..830b478 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -238,6 +238,11 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
 
+            # An undefined velocity, or a step too small to advance the time,
+            # cannot be recovered by changing the time step.
+            if not np.isfinite(est) or t + dt == t:
+                raise ArithmeticError('undefined velocity or stalled time step')
+
             if (est < tol) and (ds < maxstep):
                 t = t + dt
                 k1 = k2
-- 
2.43.0


From 92e476163c707d7ff2baa4f89e94e0680b8206f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 04/21] fix: make room for the umbra when rasterizing a track

The grid grew only to the extent of the track, so nodes within umbra of the track
but outside that extent were dropped, depending on when the grid had grown.
---
 oneka/probabilityfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 8ec8ed5..abe3ee8 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -332,7 +332,7 @@ class ProbabilityField:
         None.
         """
         # Make certain that the grid is large enough.
-        self.expand(min(x), max(x), min(y), max(y))
+        self.expand(min(x) - umbra, max(x) + umbra, min(y) - umbra, max(y) + umbra)
 
         # Insert each line segment.
         for i in range(len(x)-1):
-- 
2.43.0


From 8c7cbc25e5cef8a5bff18c8641b8a2c2580c83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 05/21] fix: distance to a zero-length segment is the distance
 to the point

A stagnant particle yields repeated vertices; the division by zero raised
ZeroDivisionError (floats) or gave NaN, leaving the nodes around it unmarked.
---
 oneka/probabilityfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index abe3ee8..ef34962 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -414,6 +414,10 @@ class ProbabilityField:
         dot = bax*cax + bay*cay
         length2 = bax*bax + bay*bay
 
+        # A degenerate segment is a point.
+        if length2 == 0:
+            return cax*cax + cay*cay
+
         alpha2 = perpdot*perpdot / length2
         beta2 = dot*dot / length2
 
-- 
2.43.0


From 6fe6a606187e8f36b2b3cbf4c1176901356f7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 06/21] fix: leave the field unchanged when growing it runs out
 of memory

The extent was moved before the larger grids were allocated, so after a
MemoryError the stored values sat at the wrong coordinates.
---
 oneka/probabilityfield.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index ef34962..ddc0d30 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -212,8 +212,13 @@ class ProbabilityField:
             self.xmax = self.xmin + (self.ncols-1)*self.deltax
             self.ymax = self.ymin + (self.nrows-1)*self.deltay
 
-            self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
-            self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)
+            try:
+                self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
+                self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)
+            except MemoryError:
+                self.nrows = 0
+                self.ncols = 0
+                raise
 
             self.total_weight = 0.0
 
@@ -226,6 +231,8 @@ class ProbabilityField:
             rshift = 0
             cshift = 0
 
+            extent = (self.xmin, self.xmax, self.ymin, self.ymax)
+
             while xmin <= self.xmin:
                 self.xmin -= self.deltax
                 ncols += 1
@@ -246,8 +253,12 @@ class ProbabilityField:
 
             # Create the expanded grids, if necessary.
             if (nrows != self.nrows) or (ncols != self.ncols):
-                pgrid = np.zeros((nrows, ncols), dtype=np.float)
-                rgrid = np.zeros((nrows, ncols), dtype=np.bool)
+                try:
+                    pgrid = np.zeros((nrows, ncols), dtype=np.float)
+                    rgrid = np.zeros((nrows, ncols), dtype=np.bool)
+                except MemoryError:
+                    self.xmin, self.xmax, self.ymin, self.ymax = extent
+                    raise
 
                 rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid
                 pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.pgrid
-- 
2.43.0


From 33dc0a5bf5a003d32bbd57613f0e9aafb46c3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 07/21] fix: never overwrite an existing archive

The archive name has a resolution of one second of local time, so a second run
ending within the second (or after the clock stepped back) destroyed the first.
---
 oneka/archive.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index 3c8bbb5..ef39f83 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -53,7 +53,7 @@ def dump_oneka(
         pfield):
 
     # Create the dump file name.
-    filename='logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'
+    stem = 'logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S')
 
     # Create a dictionary.
     oneka_dict = {
@@ -78,7 +78,18 @@ def dump_oneka(
         'maxstep' : maxstep,
         'pfield' : pfield}
 
-    with bz2.BZ2File(filename, "w") as fp:
+    # Never overwrite an existing archive.
+    copy = 0
+    filename = stem + '.bz2'
+    while True:
+        try:
+            fp = bz2.BZ2File(filename, "x")
+            break
+        except FileExistsError:
+            copy += 1
+            filename = stem + '_{0:d}.bz2'.format(copy)
+
+    with fp:
         pickle.dump(oneka_dict, fp)
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 8ca48b00be6bc36fa28416f115dd904d5b1df06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 08/21] fix: detach a run's log file when the run ends

The file handler stayed on the shared logger, so a later run in the same process
was also written into the log files of all earlier runs.
---
 runme.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/runme.py b/runme.py
index 94b4235..a9df52e 100644
--- a/runme.py
+++ b/runme.py
@@ -56,20 +56,23 @@ def main(module_name):
 
     log = logging.getLogger('Oneka')
 
-    # Call the working function.
-    oneka(
-        m.PROJECTNAME, RUNTIME,
-        m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
-        m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
-        m.WELLS, m.OBSERVATIONS,
-        m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
-        m.CONFINED, m.TOL, m.MAXSTEP)
-
-    # Shutdown the run.
-    elapsedtime = time.time() - start_time
-    log.info('\n')
-    log.info('Total elapsed time = %.4f seconds' % elapsedtime)
-    logging.shutdown()
+    try:
+        # Call the working function.
+        oneka(
+            m.PROJECTNAME, RUNTIME,
+            m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
+            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
+            m.WELLS, m.OBSERVATIONS,
+            m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
+            m.CONFINED, m.TOL, m.MAXSTEP)
+
+        # Shutdown the run.
+        elapsedtime = time.time() - start_time
+        log.info('\n')
+        log.info('Total elapsed time = %.4f seconds' % elapsedtime)
+    finally:
+        logger.removeHandler(fh)
+        logging.shutdown()
 
     print('\n\nTotal elapsed time = %.4f seconds' % elapsedtime)
 
-- 
2.43.0


From 3b26e267cbd28d29d035bc006b75db4193db48fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 09/21] fix: accept smooth = 0, the documented default

Calling oneka() with its default arguments failed its own argument check.
---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 670ff0e..f8c6ef1 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -235,7 +235,7 @@ def oneka(
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
     assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
-    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 < smooth)
+    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)
 
     assert(isinstance(confined, bool))
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
-- 
2.43.0


From 9419f4ba67489f018507325151d31cbf342ec5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 10/21] fix: return the probability field, as documented

---
 oneka/oneka.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index f8c6ef1..58c4f83 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -316,6 +316,9 @@ def oneka(
 
     plt.show()
 
+    return pfield
+
+
 # ------------------------------------------------------------------------------
 def log_the_run(
         projectname, runtime,
-- 
2.43.0


From dc7c0b26aa8889cbc81a4fd96e95b3fe767a5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 11/21] fix: sample every distribution that isdistribution
 accepts

Lists were returned unsampled, and a triangular distribution of zero width
raised ValueError in the middle of a run.
---
 oneka/stochastic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index f01bb27..695d14c 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -294,12 +294,15 @@ def generate_random_variate(arg):
         A random variate from the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
     elif len(arg) == 3:
-        value = np.random.triangular(arg[0], arg[1], arg[2])
+        if arg[0] == arg[2]:
+            value = arg[0]
+        else:
+            value = np.random.triangular(arg[0], arg[1], arg[2])
     else:
         raise DistributionError('<arg> must be a scalar, pair, or triple.')
 
@@ -330,7 +333,7 @@ def compute_variate_mean(arg):
         The mean of the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = (arg[0] + arg[1])/2.0
-- 
2.43.0


From a0ffea254befb57302541242f976a7c734f24ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 12/21] fix: leave dry nodes of a head map blank

The handler named a module that does not exist, so the first dry node raised
NameError instead.
---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 8bdffef..578956a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -106,7 +106,7 @@ def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
         for j in range(ncols):
             try:
                 grid[i, j] = mo.compute_head(x[j], y[i])
-            except onekapy.model.AquiferError:
+            except oneka.model.AquiferError:
                 grid[i, j] = np.nan
 
     plt.contourf(x, y, grid, cmap='bwr')
-- 
2.43.0


From b267d9daf689e24509ae00bda775c374ce53ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 13/21] fix: average duplicate observations wherever they are
 in the list

Only duplicates listed next to each other were averaged.
---
 oneka/utilities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/oneka/utilities.py b/oneka/utilities.py
index 6fb85d3..3fbc9a1 100644
--- a/oneka/utilities.py
+++ b/oneka/utilities.py
@@ -109,6 +109,16 @@ def filter_obs(observations, wellfield, buffer):
     # Assume that the duplicate errors are statistically independent.
     retained_obs = []
 
+    # Bring the duplicates of each observation together.
+    grouped = []
+    while obs:
+        x, y = obs[0][0:2]
+        near = [np.hypot(x-ob[0], y-ob[1]) < TOO_CLOSE for ob in obs]
+        near[0] = True
+        grouped.extend([ob for ob, flag in zip(obs, near) if flag])
+        obs = [ob for ob, flag in zip(obs, near) if not flag]
+    obs = grouped
+
     i = 0
     while i < len(obs):
         j = i+1
-- 
2.43.0


From 5d5b2f0d1225106e0636f583a0dc331ac442b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 14/21] fix: verify the whole archive before unpickling it

---
 oneka/archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index ef39f83..944aa00 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -95,6 +95,7 @@ def dump_oneka(
 # ------------------------------------------------------------------------------
 def load_oneka(filename):
     with bz2.BZ2File(filename, "r") as fp:
-        oneka_dict = pickle.load(fp)
+        # Read to the end, so that all checksums are verified before unpickling.
+        oneka_dict = pickle.loads(fp.read())
 
     return (oneka_dict)
-- 
2.43.0


From c53dfb864493aa897e09a08fec4d618d9feda9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 15/21] fix: the recharge logged for a stochastic realization
 has the right sign

---
 oneka/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index 695d14c..5759f12 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -241,7 +241,7 @@ def create_stochastic_capturezone(
         mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
 
         # Log some basic information about the realization.
-        recharge = 2*(mo.coef[0] + mo.coef[1])
+        recharge = -2*(mo.coef[0] + mo.coef[1])
         log.info('Realization #{0:d}: {1:.2f}, {2:.2f}, {3:.2f}, {4:.2f}, {5:.4e}'
                  .format(i, base, conductivity, porosity, thickness, recharge))
         log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
-- 
2.43.0


From 0cb9a8b838e3753224b05e9d2c558b90b1c869df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 16/21] fix: observations without uncertainty, which the
 weighted fit cannot take, are rejected

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 58c4f83..74c6ef6 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -230,7 +230,7 @@ def oneka(
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
                (isinstance(ob[2], int) or isinstance(ob[2], float)) and
-               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 <= ob[3])
+               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
 
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
-- 
2.43.0


From 796c8ae4ebfc551403c03fa731c9b9ffd9f7a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 17/21] fix: a duration that is not a number is rejected

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 74c6ef6..c1de517 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -209,7 +209,7 @@ def oneka(
 
     assert(isinstance(target, int) and 0 <= target < len(stochastic_wells))
     assert(isinstance(npaths, int) and 0 < npaths)
-    assert((isinstance(duration, int) or isinstance(duration, float)) and 0 != duration)  ###_Forward_###
+    assert((isinstance(duration, int) or isinstance(duration, float)) and (duration < 0 or 0 < duration))  ###_Forward_###
 
     assert(isinstance(base, int) or isinstance(base, float))
     assert(isdistribution(c_dist, 0, np.inf))
-- 
2.43.0


From a935d6ac43eb5ff323b2c008b20bb7e4bb2f93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 18/21] fix: aquifer properties that are identically zero, or
 infinite, are rejected

---
 oneka/oneka.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index c1de517..9a18b02 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -59,7 +59,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 
 from oneka.archive import dump_oneka
-from oneka.stochastic import create_stochastic_capturezone, isdistribution
+from oneka.stochastic import create_stochastic_capturezone, compute_variate_mean, isdistribution
 from oneka.deterministic import create_deterministic_capturezone
 from oneka.utilities import filter_obs, summary_statistics
 from oneka.visualize import create_probability_plot, create_impact_plot, create_deterministic_plot
@@ -215,6 +215,8 @@ def oneka(
     assert(isdistribution(c_dist, 0, np.inf))
     assert(isdistribution(p_dist, 0, 1))
     assert(isdistribution(t_dist, 0, np.inf))
+    for dist in (c_dist, p_dist, t_dist):
+        assert(0 < compute_variate_mean(dist) < np.inf)
 
     assert(isinstance(stochastic_wells, list) and len(stochastic_wells) >= 1)
     for we in stochastic_wells:
-- 
2.43.0


From 1896eda18f89daa411b80e05c8220bdc0420cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 19/21] fix: the driver closes its own log handler only, not
 every handler of the process

---
 runme.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runme.py b/runme.py
index a9df52e..2d771b0 100644
--- a/runme.py
+++ b/runme.py
@@ -72,7 +72,10 @@ def main(module_name):
         log.info('Total elapsed time = %.4f seconds' % elapsedtime)
     finally:
         logger.removeHandler(fh)
-        logging.shutdown()
+        try:
+            fh.close()
+        except OSError:
+            pass
 
     print('\n\nTotal elapsed time = %.4f seconds' % elapsedtime)
 
-- 
2.43.0


From 515ec3809dc1b3efe6089859e6a8135c1f89ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 20/21] fix: the elapsed time of a run is right also when the
 wall clock is set meanwhile

---
 runme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runme.py b/runme.py
index 2d771b0..129a192 100644
--- a/runme.py
+++ b/runme.py
@@ -39,7 +39,7 @@ def main(module_name):
         return
 
     # Initialize the run.
-    start_time = time.time()
+    start_time = time.perf_counter()
     RUNTIME = time.asctime()
 
     # Setup the logging.
@@ -67,7 +67,7 @@ def main(module_name):
             m.CONFINED, m.TOL, m.MAXSTEP)
 
         # Shutdown the run.
-        elapsedtime = time.time() - start_time
+        elapsedtime = time.perf_counter() - start_time
         log.info('\n')
         log.info('Total elapsed time = %.4f seconds' % elapsedtime)
     finally:
-- 
2.43.0


From d234fcfbe455683eb0e7552004d617eaee0f029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 21/21] fix: refuse to grow the probability field to an extent
 that is not finite

---
 oneka/probabilityfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index ddc0d30..c1556a7 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -194,6 +194,9 @@ class ProbabilityField:
         """
 
         # Validate the arguments.
+        if not np.all(np.isfinite([xmin, xmax, ymin, ymax])):
+            raise RangeError("<xmin>, <xmax>, <ymin>, and <ymax> must be finite.")
+
         if xmin > xmax:
             raise RangeError("<xmin> must be <= <xmax>.")
 
-- 
2.43.0

