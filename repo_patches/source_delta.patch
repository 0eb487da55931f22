From a578690bc46d4f4bdf8d6e848959ab30f8781195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 01/19] fix: copy layers with their initial shear-wave velocity

Layer.copy() used the strain-compatible velocity, so a copy made after an
equivalent-linear analysis carried the degraded velocity (or, after a
frequency-dependent analysis, a vector) as its initial velocity.
---
 src/pystrata/site.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5d286f2..3f6b3ae 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1772,7 +1772,9 @@ class Layer:
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-        return Layer(self.soil_type, self.thickness, self.shear_vel, self.damping_min)
+        return Layer(
+            self.soil_type, self.thickness, self.initial_shear_vel, self.damping_min
+        )
 
     @property
     def depth(self) -> float:
-- 
2.43.0


From 806a90aa9d8c9ed0f8dc5eceb4986b4e86da2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 02/19] fix: make auto_discretize independent of the source
 profile

The discretized profile shared the linear layers and the half-space with the
profile it was made from, and took its velocities from the last analysis.
---
 src/pystrata/site.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 3f6b3ae..38812f0 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2179,7 +2179,7 @@ class Profile(collections.abc.Container):
         layers = []
         for layer in self[:-1]:
             if not nonlinear_only or layer.soil_type.is_nonlinear:
-                opt_thickness = layer.shear_vel / max_freq * wave_frac
+                opt_thickness = layer.initial_shear_vel / max_freq * wave_frac
                 count = max(np.ceil(layer.thickness / opt_thickness).astype(int), 1)
                 thickness = layer.thickness / count
                 for _ in range(count):
@@ -2187,14 +2187,14 @@ class Profile(collections.abc.Container):
                         Layer(
                             layer.soil_type,
                             thickness,
-                            layer.shear_vel,
+                            layer.initial_shear_vel,
                             layer.damping_min,
                         )
                     )
             else:
-                layers.append(layer)
+                layers.append(layer.copy())
         # Add the halfspace
-        layers.append(self[-1])
+        layers.append(self[-1].copy())
 
         return Profile(layers, wt_depth=self.wt_depth)
 
-- 
2.43.0


From 7a47bb1ec017d531f3bef68bdb566e2190ebd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 03/19] fix: copy the half-space of varied profiles

Half-space depth and soil-type variations placed the half-space of the seed
profile in the varied profile, which moved it in the seed profile.
---
 src/pystrata/variation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 4dca245..f3970b2 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -315,7 +315,7 @@ class HalfSpaceDepthVariation:
             for _ in range(count - 1):
                 layers.append(parent.copy())
 
-        layers.append(half_space)
+        layers.append(half_space.copy())
 
         return site.Profile(layers, profile.wt_depth)
 
@@ -928,7 +928,7 @@ class SoilTypeVariation:
 
         # Add the unrandomized bedrock
         if not self.vary_bedrock:
-            layers.append(profile[-1])
+            layers.append(profile[-1].copy())
 
         return site.Profile(layers, profile.wt_depth)
 
-- 
2.43.0


From 048ac6e25924917f03de88fd4a4e26ddc7fdca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 04/19] fix: keep the half-space damping in the thickness
 variation

---
 src/pystrata/variation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index f3970b2..0a6c0d3 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -276,7 +276,9 @@ class ToroThicknessVariation:
 
         # Add the half-space
         hsl = profile[-1]
-        layers.append(site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel))
+        layers.append(
+            site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel, hsl.damping_min)
+        )
 
         varied = site.Profile(layers, profile.wt_depth)
         return varied
-- 
2.43.0


From 141338df7d22f7fc8d7531917146ef9a808f1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 05/19] fix: tell apart layers with identical properties

Looking up a location by index returned the first layer that compared equal,
and updating depths stopped at layers equal to the half-space.
---
 src/pystrata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 38812f0..f9602f4 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2137,7 +2137,7 @@ class Profile(collections.abc.Container):
             layer._profile = self
             layer._depth = depth
             layer._stress_vert = stress_vert
-            if layer != self[-1]:
+            if layer is not self[-1]:
                 # Use the layer to compute the values at the base of the
                 # layer, and apply them at the top of the next layer
                 depth = layer.depth_base
@@ -2273,7 +2273,7 @@ class Profile(collections.abc.Container):
             layer = self[i]
         elif index is not None and depth is None:
             layer = self[index]
-            i = self.index(layer)
+            i = index if index >= 0 else len(self) + index
             depth_within = 0
         else:
             raise NotImplementedError
-- 
2.43.0


From 62cca37261edd8a774b592383e9f5bc7c2a1e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 06/19] fix: discard the partial record of a failed output

A recording that raised an exception left its name (and possibly the reference)
behind, so later columns were attributed to the wrong calculation, and the
outputs of a collection no longer held the same calculations.
---
 src/pystrata/output.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index c3e0dbb..60f94bb 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -20,6 +20,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 # SOFTWARE.
 import collections
+import functools
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -112,6 +113,31 @@ def plot_amplification_evolv(
     return ax
 
 
+def _iter_outputs(output):
+    """Iterate over an output, or the (nested) outputs of a collection."""
+    if isinstance(output, Output):
+        yield output
+    elif isinstance(output, OutputCollection):
+        for o in output:
+            yield from _iter_outputs(o)
+
+
+def _all_or_nothing(func):
+    """Decorate a recording so that it leaves no trace if it does not complete."""
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwds):
+        states = [(o, o._refs, o._values, list(o._names)) for o in _iter_outputs(self)]
+        try:
+            return func(self, *args, **kwds)
+        except BaseException:
+            for o, refs, values, names in states:
+                o._refs, o._values, o._names[:] = refs, values, names
+            raise
+
+    return wrapper
+
+
 class OutputCollection(collections.abc.Collection):
     def __init__(self, outputs):
         super().__init__()
@@ -129,6 +155,7 @@ class OutputCollection(collections.abc.Collection):
     def __getitem__(self, key):
         return self.outputs[key]
 
+    @_all_or_nothing
     def __call__(self, calc, name=None):
         # Save results
         for o in self:
@@ -179,6 +206,11 @@ class Output:
     yscale = "log"
     drawstyle = "default"
 
+    def __init_subclass__(cls, **kwds):
+        super().__init_subclass__(**kwds)
+        if "__call__" in cls.__dict__:
+            cls.__call__ = _all_or_nothing(cls.__call__)
+
     def __init__(self, refs=None):
         self._refs = np.asarray([] if refs is None else refs)
         self._values = None
-- 
2.43.0


From 6d9783ba211071f1dcbbbe1a7aad509210563890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 07/19] fix: let the documented random state control the
 variations

The random_state of the module was never used, so that seeding it had no
effect. Use the random state from which the variations are drawn.
---
 src/pystrata/variation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 0a6c0d3..485b760 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -30,9 +30,9 @@ from scipy.sparse import diags
 
 from . import site
 
-# Used to define the random state. A specific state can be set with:
-# random_state.set_seed(42)
-random_state = np.random.RandomState()
+# Random state of all of the variations, which is the global state of numpy. A specific
+# state can be set with: random_state.seed(42)
+random_state = np.random.mtrand._rand
 
 
 class TruncatedNorm:
-- 
2.43.0


From 647a56944e895d178429912efbbef85c7fa172d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 08/19] fix: do not leave a trial site attenuation after
 fitting

QuarterWaveLenCalculator.fit() left the attenuation of the last function
evaluation, rather than the optimum, and if the fit failed then it left a trial
value that changed later calculations.
---
 src/pystrata/propagation.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 33f2e0a..b48dacd 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -535,21 +535,28 @@ class QuarterWaveLenCalculator(AbstractCalculator):
                 err += calc_rmse(self._site_atten, site_atten)
             return err
 
-        res = minimize(err, initial, method="L-BFGS-B", bounds=bounds)
+        try:
+            res = minimize(err, initial, method="L-BFGS-B", bounds=bounds)
 
-        slowness = res.x[0:nl]
-        if adjust_thickness:
-            thickness = res.x[nl : (2 * nl)]
-
-        profile = Profile(
-            [
-                Layer(layer.soil_type, thick, 1 / slow)
-                for layer, thick, slow in zip(self.profile, thickness, slowness)
-            ],
-            self.profile.wt_depth,
-        )
-        # Update the calculated amplificaiton
-        self(self.motion, profile, self.loc_input)
+            slowness = res.x[0:nl]
+            if adjust_thickness:
+                thickness = res.x[nl : (2 * nl)]
+            if adjust_site_atten:
+                self._site_atten = res.x[-1]
+
+            profile = Profile(
+                [
+                    Layer(layer.soil_type, thick, 1 / slow)
+                    for layer, thick, slow in zip(self.profile, thickness, slowness)
+                ],
+                self.profile.wt_depth,
+            )
+            # Update the calculated amplificaiton
+            self(self.motion, profile, self.loc_input)
+        except BaseException:
+            # The evaluations of err set trial values
+            self._site_atten = site_atten
+            raise
 
 
 class LinearElasticCalculator(AbstractCalculator):
-- 
2.43.0


From ba19f08daa65443db076e91f23cc228530d78c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 09/19] fix: give WangSoilType the same name in every process

The order of the parameters in the name was that of a set of strings, which
depends on the hash seed of the process.
---
 src/pystrata/site.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index f9602f4..e99b90a 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -883,8 +883,11 @@ class WangSoilType(SoilType):
         if not specified_dmin:
             models += ["dmin_model"]
 
+        # Unique parameters in a reproducible order
         return list(
-            {param for model in models for param in cls.LEVELS[soil_group][model]}
+            dict.fromkeys(
+                param for model in models for param in cls.LEVELS[soil_group][model]
+            )
         )
 
     def _create_name(self) -> str:
-- 
2.43.0


From 840f4ca2b9bc17625c3be6153246e389d396e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 10/19] fix: keep the earlier file if storing an NCM profile
 fails

fetch_ncm_profile truncated the existing file before writing, so that a full disk
or an interrupt destroyed the earlier profile and left a partial file.
---
 src/pystrata/generic.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index b5be4be..0450028 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -3,6 +3,7 @@
 import gzip as _gzip
 import json
 import os
+import threading
 import urllib.request
 import warnings
 
@@ -155,13 +156,19 @@ def fetch_ncm_profile(
     if data.get("status") not in ("sucess", "success"):
         raise RuntimeError(f"NCM request failed with status: {data.get('status')}")
 
-    fpath = os.fspath(fpath)
-    if gzip_output:
-        with _gzip.open(fpath, "wt") as f:
-            json.dump(data, f)
-    else:
-        with open(fpath, "w") as f:
+    # Write to a temporary file so that a failure leaves any earlier file as it was
+    fpath = os.path.realpath(os.fsdecode(fpath))
+    fpath_temp = f"{fpath}.{os.getpid()}.{threading.get_ident()}.tmp"
+    try:
+        with _gzip.open(fpath_temp, "wt") if gzip_output else open(
+            fpath_temp, "w"
+        ) as f:
             json.dump(data, f)
+        os.replace(fpath_temp, fpath)
+    except BaseException:
+        if os.path.exists(fpath_temp):
+            os.remove(fpath_temp)
+        raise
 
 
 def load_ncm_profile(
-- 
2.43.0


From 04cd0a1d0d4377cdaf3113c3fff0510b58a43391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 11/19] fix: raise ValueError if an NCM file cannot be parsed

Truncated or damaged files raised EOFError, zlib.error, or KeyError instead of the
documented ValueError.
---
 src/pystrata/generic.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index 0450028..f376d2d 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -6,6 +6,7 @@ import os
 import threading
 import urllib.request
 import warnings
+import zlib
 
 import numpy as np
 import pandas as pd
@@ -206,22 +207,28 @@ def load_ncm_profile(
 
     # Try gzip first, fall back to plain JSON
     try:
-        with _gzip.open(fpath, "rt") as f:
-            data = json.load(f)
-    except _gzip.BadGzipFile:
-        with open(fpath) as f:
-            data = json.load(f)
-
-    results = data["response"]["results"]
-    if not results:
-        raise ValueError("NCM response contains no results")
-
-    result = results[0]
-    water_table_depth = result["location"]["water_table_depth"]
-
-    depths = np.array(data["request"]["depths"]["depth_vector"], dtype=float)
-    vs = np.array(result["profile"]["vs"], dtype=float)
-    density = np.array(result["profile"]["density"], dtype=float)
+        try:
+            with _gzip.open(fpath, "rt") as f:
+                data = json.load(f)
+        except _gzip.BadGzipFile:
+            with open(fpath) as f:
+                data = json.load(f)
+    except (EOFError, zlib.error, _gzip.BadGzipFile) as e:
+        raise ValueError(f"Unable to parse NCM file: {fpath}") from e
+
+    try:
+        results = data["response"]["results"]
+        if not results:
+            raise ValueError("NCM response contains no results")
+
+        result = results[0]
+        water_table_depth = result["location"]["water_table_depth"]
+
+        depths = np.array(data["request"]["depths"]["depth_vector"], dtype=float)
+        vs = np.array(result["profile"]["vs"], dtype=float)
+        density = np.array(result["profile"]["density"], dtype=float)
+    except (LookupError, TypeError) as e:
+        raise ValueError(f"Unable to parse NCM file: {fpath}") from e
     unit_wt = density * 9.81 / 1000
 
     df = pd.DataFrame({"depth": depths, "vel_shear": vs, "unit_wt": unit_wt})
-- 
2.43.0


From 0f41610cb9ef2d459d0111c0c581ece93e82fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 12/19] fix: do not load a truncated AT2 file as a shorter
 motion

The header states the number of values, but a file that ends early was silently
loaded as a motion of shorter duration.
---
 src/pystrata/motion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index b286dac..bafdd13 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -282,10 +282,16 @@ class TimeSeriesMotion(Motion):
             description = next(fp).strip()
             next(fp)
             parts = next(fp).split()
+            count = int(parts[0])
             time_step = float(parts[1])
 
             accels = np.array([float(part) for line in fp for part in line.split()])
 
+        if accels.size < count:
+            raise ValueError(
+                f"Truncated file: {filename} has {accels.size} of {count} values"
+            )
+
         accels *= scale
         return cls(filename, description, time_step, accels)
 
-- 
2.43.0


From 9488510ca17f2256159ccafb12314cf462ee467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 13/19] fix: load the complete SHAKE motion as one series

---
 src/pystrata/tools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index a7bb6c2..4190243 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -141,7 +141,7 @@ def _parse_soil_profile(block, units, curves, **kwargs):
 
 def _parse_motion(block, **kwargs):
     """Parse motin specification block."""
-    _, fa_length, time_step, name, fmt = parse_fixed_width(
+    count, fa_length, time_step, name, fmt = parse_fixed_width(
         [(5, int), (5, int), (10, float), (30, to_str), (30, to_str)], block
     )
 
@@ -158,7 +158,12 @@ def _parse_motion(block, **kwargs):
         fname,
         delimiter=(count_per_line * [width]),
         skip_header=header_lines,
-    )
+    ).ravel()
+    # Last line might not be full
+    accels = accels[np.isfinite(accels)]
+    if accels.size < count:
+        raise ValueError(f"Truncated file: {fname} has {accels.size} of {count} values")
+    accels = accels[:count]
 
     if np.isfinite(scale):
         pass
-- 
2.43.0


From f84b8ae9a21bc101e2bfe0bf42940caeb45d3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 14/19] fix: update all depths after inserting a layer

With a negative index only the layers from there were updated, starting at zero
depth, and an index beyond the last layer raised IndexError after the insertion.
---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index e99b90a..1351428 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2120,7 +2120,8 @@ class Profile(collections.abc.Container):
 
     def insert(self, index, layer):
         self.layers.insert(index, layer)
-        self.update_layers(index)
+        # The index might be negative or larger than the number of layers
+        self.update_layers()
 
     def reset_layers(self):
         """Set initial properties from the soil types."""
-- 
2.43.0


From 12a0e9336c2a86fd1e813426e477c67f35d3be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 15/19] fix: include the half-space in Vs30 of profiles
 shallower than 30 m

---
 src/pystrata/site.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 1351428..d37d667 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2315,7 +2315,14 @@ class Profile(collections.abc.Container):
     def vs30(self):
         """Compute the Vs30 of the profile."""
         tot_time = np.r_[0, np.cumsum(self.thickness / self.initial_shear_vel)[:-1]]
-        time = np.interp(30, self.depth, tot_time)
+        depth = self.depth
+        if depth[-1] < 30:
+            # The half-space extends to the depth of interest
+            tot_time = np.r_[
+                tot_time, tot_time[-1] + (30 - depth[-1]) / self[-1].initial_shear_vel
+            ]
+            depth = np.r_[depth, 30]
+        time = np.interp(30, depth, tot_time)
         return 30 / time
 
     def simplified_rayliegh_vel(self):
-- 
2.43.0


From 5e24df8b3faf51d740733ef4df7a30819fcfaa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 16/19] fix: allow to change the thickness of a layer outside
 of a profile

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index d37d667..2a179f0 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1975,7 +1975,8 @@ class Layer:
     @thickness.setter
     def thickness(self, thickness):
         self._thickness = thickness
-        self._profile.update_layers(self._profile.index(self) + 1)
+        if self._profile is not None:
+            self._profile.update_layers(self._profile.index(self) + 1)
 
     @property
     def travel_time(self):
-- 
2.43.0


From 55c588cc91c893d8b235f088260d6a3905a8eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 17/19] fix: read an NCM file once while it might be replaced

---
 src/pystrata/generic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index f376d2d..1c9c22d 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -205,14 +205,15 @@ def load_ncm_profile(
     """
     fpath = os.fspath(fpath)
 
+    # Read the file once, as it might be replaced by another fetch
+    with open(fpath, "rb") as f:
+        content = f.read()
+
     # Try gzip first, fall back to plain JSON
     try:
-        try:
-            with _gzip.open(fpath, "rt") as f:
-                data = json.load(f)
-        except _gzip.BadGzipFile:
-            with open(fpath) as f:
-                data = json.load(f)
+        if content.startswith(b"\x1f\x8b"):
+            content = _gzip.decompress(content)
+        data = json.loads(content.decode())
     except (EOFError, zlib.error, _gzip.BadGzipFile) as e:
         raise ValueError(f"Unable to parse NCM file: {fpath}") from e
 
-- 
2.43.0


From 4d3f239ae66bd9e2a3a5ee6614ad58527072c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:28 +0000
Subject: [PATCH 18/19] fix: pad whole numbers in recorded outputs

---
 src/pystrata/output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 60f94bb..3ba637d 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -187,6 +187,10 @@ def append_arrays(many, single):
 
     # Check if the values need to be padded to for equal length
     diff = single.shape[0] - many.shape[0]
+    if diff != 0:
+        # Integers cannot be padded with NaN
+        single = single.astype(np.result_type(single, float))
+        many = many.astype(np.result_type(many, float))
     if diff < 0:
         single = np.pad(single, (0, -diff), "constant", constant_values=np.nan)
     elif diff > 0:
-- 
2.43.0


From ca96de9c89ee16d6ed6d83a2ccb37a530366dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 19/19] fix: import without numba

---
 src/pystrata/propagation.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index b48dacd..0eb2f8a 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -73,23 +73,25 @@ class AbstractCalculator:
         return self._loc_input
 
 
-@numba.jit(nopython=True)
-def _my_trapz_impl(thickness, prop, depth_max):
-    total = 0
-    depth = 0
+if HAS_NUMBA:
 
-    for t, p in zip(thickness, prop):
-        depth += t
-        if depth_max < depth:
-            # Partial layer
-            total += (t - (depth - depth_max)) * p
-            break
-        total += t * p
-    else:
-        # Final infinite layer
-        total += (depth_max - depth) * p
+    @numba.jit(nopython=True)
+    def _my_trapz_impl(thickness, prop, depth_max):
+        total = 0
+        depth = 0
 
-    return total / depth_max
+        for t, p in zip(thickness, prop):
+            depth += t
+            if depth_max < depth:
+                # Partial layer
+                total += (t - (depth - depth_max)) * p
+                break
+            total += t * p
+        else:
+            # Final infinite layer
+            total += (depth_max - depth) * p
+
+        return total / depth_max
 
 
 def _my_trapz_python(thickness, prop, depth_max):
-- 
2.43.0

