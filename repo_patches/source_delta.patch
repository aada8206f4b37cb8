From ecaab2c9aae1b0fda1f09d5f65d0bfd63ad11d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:43 +0000
Subject: [PATCH 01/97] fix: do not import the nonexistent
 echidna.limit.summary from store

echidna.output.store imported Summary and ReducedSummary from a module that
is not part of the package and used neither, so store, fit and limit could not
be imported at all.
---
 echidna/output/store.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9a94df9..905a0de 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -3,7 +3,6 @@ import numpy
 from echidna.core.spectra import Spectra
 from echidna.core.config import (SpectraConfig, SpectraParameter,
                                  SpectraFitConfig, GlobalFitConfig)
-from echidna.limit.summary import Summary, ReducedSummary
 from echidna.fit.fit_results import FitResults, LimitResults
 from echidna.fit.minimise import GridSearch
 
-- 
2.43.0


From 69dea29a7fab130a5755c181a782612912b89816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:14 +0000
Subject: [PATCH 02/97] fix: round to the parameter's own bin edges, not to
 multiples of the width

---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2695d42..c48bb1c 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1137,7 +1137,8 @@ class SpectraParameter(Parameter):
         Returns:
           float: The value of the closest bin edge to x
         """
-        return round(x/self.get_width())*self.get_width()
+        n_widths = round((x - self._low) / self.get_width())
+        return self._low + n_widths * self.get_width()
 
     def set_par(self, **kwargs):
         """Set a limit / binning parameter after initialisation.
-- 
2.43.0


From 127a61e7b5b80708cfe32c31fe046fef52742aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 03/97] fix: fill the last bin with values just below the upper
 bound

---
 echidna/core/spectra.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 258c0e1..a40643a 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -193,10 +193,13 @@ class Spectra(object):
                 raise ValueError("%s out of range: %s" % (v, kwargs[v]))
         bins = []
         for v in self._config.get_pars():
-            bins.append(int((kwargs[v] - self._config.get_par(v)._low) /
-                            (self._config.get_par(v)._high -
-                             self._config.get_par(v)._low) *
-                            self._config.get_par(v)._bins))
+            bin = int((kwargs[v] - self._config.get_par(v)._low) /
+                      (self._config.get_par(v)._high -
+                       self._config.get_par(v)._low) *
+                      self._config.get_par(v)._bins)
+            # A value just below the upper bound belongs to the last bin, even
+            # if the calculation above is rounded up
+            bins.append(min(bin, self._config.get_par(v)._bins - 1))
         self._data[tuple(bins)] += weight
 
     def get_background_name(self):
-- 
2.43.0


From a95a61dfb0111faaabb8f449ebc80f838ae75f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 04/97] fix: sum the requested axes in projections of three or
 more dimensions

---
 echidna/core/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index a40643a..1f3fdd8 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -317,7 +317,8 @@ class Spectra(object):
         if len(axes) == len(self._config.get_pars()):
             return copy.copy(self._data)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Sum the last axes first, so that the preceding ones keep their index
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis not in axes:
                 projection = projection.sum(i_axis)
         return projection
@@ -596,7 +597,8 @@ class Spectra(object):
         if axis2 < 0 or axis2 > len(self._config.get_pars()):
             raise IndexError("Axis index %s out of range" % axis2)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Sum the last axes first, so that the preceding ones keep their index
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis != axis1 and i_axis != axis2:
                 projection = projection.sum(i_axis)
         return projection
-- 
2.43.0


From 8ebc1f3567407ea237da97f0a6b23c8c86931424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 05/97] fix: add spectra along matching dimensions when their
 axis order differs

---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 1f3fdd8..24ba568 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -100,12 +100,14 @@ class Spectra(object):
                 dim = spectrum.get_config().get_dim(v)
                 dim_type = spectrum._config.get_dim_type(dim)
                 types[dim] = dim_type
+        axes = []  # Axis of spectrum corresponding to each axis of self
         for v in self._config.get_pars():
             dim = self._config.get_dim(v)
             if dim in types:
                 v_spec = dim+'_'+types[dim]
             else:
                 v_spec = v
+            axes.append(spectrum.get_config().get_index(v_spec))
             if not numpy.allclose(self.get_config().get_par(v)._high,
                                   spectrum.get_config().get_par(v_spec)._high):
                 raise ValueError("Upper %s bounds in spectra are not equal."
@@ -133,7 +135,7 @@ class Spectra(object):
                                     spectrum._name,
                                     spectrum.get_config().get_par(v_spec)
                                     ._bins))
-        self._data += spectrum._data
+        self._data += numpy.transpose(spectrum._data, axes)
         self._raw_events += spectrum._raw_events
         self._num_decays += spectrum._num_decays
 
-- 
2.43.0


From 88afcab6abafe8871217f7ab66c8d69ba0e04e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 06/97] fix: refuse to shrink to an empty range, before
 changing the config

---
 echidna/core/spectra.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 24ba568..5d3d2cf 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -454,6 +454,7 @@ class Spectra(object):
           ValueError: [parameter]_high value is lower than the parameters
             higher bound.
           IndexError: Suffix to [parameter] is not _high or _low.
+          ValueError: There are no bins between the requested limits.
         """
         # First check dimensions and bounds in kwargs are valid
         for arg in kwargs:
@@ -482,6 +483,7 @@ class Spectra(object):
                                  "[dimension name]_low" % arg)
         slices_low = []
         slices_high = []
+        new_pars = []
         for par_name in self._config.get_pars():
             par = self._config.get_par(par_name)
             kw_low = "%s_low" % par_name
@@ -531,6 +533,13 @@ class Spectra(object):
             slices_high.append(high_bin)
             slices_low.append(low_bin)
             new_bins = high_bin - low_bin
+            if not (0 <= low_bin < high_bin <= par._bins):
+                raise ValueError("No %s bins between %s and %s"
+                                 % (par_name, kwargs[kw_low],
+                                    kwargs[kw_high]))
+            new_pars.append((par, new_low, new_high, new_bins))
+        # All limits are valid, now update the config
+        for par, new_low, new_high, new_bins in new_pars:
             par.set_par(low=new_low, high=new_high, bins=new_bins)
         # First set up the command then evaluate. Hacky but hey ho.
         cmd = "self._data["
-- 
2.43.0


From 32b42c470b57cded0ebf1cf727eb2c2a994c0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 07/97] fix: validate all new bin numbers before rebinning

---
 echidna/core/spectra.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 5d3d2cf..c5ca8dd 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -365,14 +365,16 @@ class Spectra(object):
         if len(new_bins) != len(self._config.get_pars()):
             raise ValueError('Incorrect number of dimensions; need %s'
                              % len(self._config.get_pars()))
-        # Now do the rebinning
         for i, v in enumerate(self._config.get_pars()):
-            if self._config.get_par(v)._bins % new_bins[i] != 0:
+            if new_bins[i] < 1 or int(new_bins[i]) != new_bins[i] or \
+                    self._config.get_par(v)._bins % new_bins[i] != 0:
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
-            self._config.get_par(v)._bins = new_bins[i]
+        # Now do the rebinning
+        for i, v in enumerate(self._config.get_pars()):
+            self._config.get_par(v)._bins = int(new_bins[i])
 
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
                                                        self._data.shape)]
-- 
2.43.0


From 2546d723dc10b6ad8224d21a20dec5f7da8a6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 08/97] fix: give copied spectra a config and ROIs of their own

---
 echidna/core/spectra.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index c5ca8dd..46e9ca1 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -4,6 +4,7 @@ from scipy import interpolate
 from echidna.core.config import SpectraFitConfig
 
 import copy
+from collections import OrderedDict
 
 
 class Spectra(object):
@@ -62,6 +63,23 @@ class Spectra(object):
         self._num_decays = float(num_decays)
         self._location = None
 
+    def __copy__(self):
+        """ Copy of the spectrum, with a config, contents and ROIs of its own.
+
+        Returns:
+          :class:`Spectra`: Copy that can be changed (e.g. shrunk) without
+            affecting this spectrum.
+        """
+        spectrum = self.__class__.__new__(self.__class__)
+        spectrum.__dict__.update(self.__dict__)
+        spectrum._config = copy.copy(self._config)
+        spectrum._config._parameters = OrderedDict(
+            (par, copy.copy(self._config.get_par(par)))
+            for par in self._config.get_pars())
+        spectrum._data = copy.copy(self._data)
+        spectrum._rois = copy.deepcopy(self._rois)
+        return spectrum
+
     def add(self, spectrum):
         """ Adds a spectrum to current spectra object.
 
-- 
2.43.0


From 121a1b896b7649cf9e82ef8ee27a26b50446baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 09/97] fix: recognise shifts that are a multiple of the bin
 width up to rounding

---
 echidna/core/shift.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 4aceee4..69f169e 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -14,6 +14,19 @@ class Shift(object):
         """
         self._shift = 0.
 
+    def _is_multiple(self, shift, step):
+        """ Checks whether the shift is a whole number of bins.
+
+        Args:
+          shift (float): Value you wish to shift by.
+          step (float): Bin width.
+
+        Returns:
+          bool: True if shift is a multiple of step.
+        """
+        bins = shift / step
+        return bool(numpy.isclose(bins - numpy.rint(bins), 0.))
+
     def get_shift(self):
         """ Returns the shift factor.
 
@@ -44,7 +57,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if numpy.isclose(shift % step, 0.):
+        if self._is_multiple(shift, step):
             # shift size multiple of step size. Interpolation not required.
             return self.shift_by_bin(spectrum, dimension)
         preshift_sum = spectrum.sum()
@@ -181,7 +194,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if not numpy.isclose(shift % step, 0.):
+        if not self._is_multiple(shift, step):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
-- 
2.43.0


From 4a5fde6dea9a46c8e8d277df0c7238a37ef20f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 10/97] fix: do not renormalise by zero when nothing is left
 after shift or scale

---
 echidna/core/scale.py | 5 +++--
 echidna/core/shift.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index c0dba9a..0fc6aee 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -165,7 +165,8 @@ class Scale(object):
                             "scale2 * (y / unscaled_sum2)")
                 exec(fill_cmd)
         # renormalise to prescale number of counts
-        scaled_spec._num_decays = scaled_spec.sum()
-        scaled_spec.scale(prescale_sum)
+        if scaled_spec.sum() > 0.:  # Otherwise nothing to renormalise
+            scaled_spec._num_decays = scaled_spec.sum()
+            scaled_spec.scale(prescale_sum)
         scaled_spec._num_decays = spectrum._num_decays
         return scaled_spec
diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 69f169e..cbf5ec5 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -175,8 +175,9 @@ class Shift(object):
                             "old_data2 * scale2 * (y / unshifted_sum2)")
                 exec(fill_cmd)
         # renormalise to prescale number of counts
-        shifted_spec._num_decays = shifted_spec.sum()
-        shifted_spec.scale(preshift_sum)
+        if shifted_spec.sum() > 0.:  # Otherwise nothing to renormalise
+            shifted_spec._num_decays = shifted_spec.sum()
+            shifted_spec.scale(preshift_sum)
         shifted_spec._num_decays = spectrum._num_decays
         return shifted_spec
 
-- 
2.43.0


From 4a355eb7ce6486285b5122e862f504dbf29c2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 11/97] fix: include the top bin in the smearing window

---
 echidna/core/smear.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a8bcdb7..e45cd41 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -260,8 +260,7 @@ class EnergySmearLY(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -508,8 +507,7 @@ class EnergySmearRes(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -726,8 +724,7 @@ class RadialSmear(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for radius in numpy.arange(low, high, widths[i]):
                             weights.append(self.calc_gaussian(radius,
-- 
2.43.0


From cf56469d257f4589958b0d89ebe6ba10bf688f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 12/97] fix: use the set energy resolution for poisson smearing

---
 echidna/core/smear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index e45cd41..6cbb39c 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -449,6 +449,8 @@ class EnergySmearRes(Smear):
         """
         if (resolution > 0. and resolution < 1.):
             self._resolution = resolution
+            # Light yield with the same resolution, for poisson smearing
+            self._light_yield = 1. / resolution**2
         else:
             raise ValueError("%s is an invalid energy resolution. Value "
                              "must be between 0. and 1." % resolution)
-- 
2.43.0


From 5068c147d9b1792e04d03ce8cb32beb2ed8dabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 13/97] fix: keep integer light yields exact in resolution
 calculations

---
 echidna/core/smear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 6cbb39c..4c01ffc 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -122,7 +122,7 @@ class EnergySmearLY(Smear):
         """
         super(EnergySmearLY, self).__init__("energy_light_yield")
         self._poisson_smear = poisson
-        self._light_yield = 200  # Nhit/MeV
+        self._light_yield = 200.  # Nhit/MeV
         self._log_factorial = {}
 
     def calc_poisson_energy(self, x, lamb):
@@ -170,7 +170,7 @@ class EnergySmearLY(Smear):
             raise ValueError("New light yield must be smaller than the"
                              "current light yield. cur_ly: %s. new_ly: %s."
                              % (cur_ly, new_ly))
-        return new_ly*cur_ly/(cur_ly-new_ly)
+        return float(new_ly)*cur_ly/(cur_ly-new_ly)
 
     def get_resolution(self):
         """ Returns the light yield.
-- 
2.43.0


From 61e19aa0e74cd51ceed27accda8b5376d7f33fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 14/97] fix: draw a whole number of radii in random radial
 smearing

---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 4c01ffc..1e6e802 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -780,7 +780,7 @@ class RadialSmear(Smear):
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
-            entries = spectrum._data[bin]
+            entries = int(spectrum._data[bin])
             if entries:
                 data = {}
                 for i in range(len(bin)):
-- 
2.43.0


From e346a81bf332641f647a38aedfb578745bba809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 15/97] fix: never take a NaN for the minimum of the grid

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 36307ec..71b6519 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -345,7 +345,7 @@ class GridSearch(FitResults, Minimiser):
         if self._use_numpy:
             # Set best_fit values
             # This is probably not the most efficient way of doing this
-            position = numpy.argmin(minimum)
+            position = numpy.nanargmin(minimum)
             position = numpy.unravel_index(position, minimum.shape)
             minimum = numpy.nanmin(minimum)
         else:  # Use find_minimum method
@@ -631,7 +631,8 @@ class GridSearch(FitResults, Minimiser):
           (41, 2, 12), the location (4, 10, 15) would be returned
         """
         dims = len(array.shape)
-        minimum = copy.copy(array)
+        # NaNs are never the minimum
+        minimum = numpy.where(numpy.isnan(array), numpy.inf, array)
         coords = None
 
         # Loop over dimensions, working outwards
-- 
2.43.0


From 15ae68ac613981186a4650296a789b9d856e7db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 16/97] fix: fill every point of the grid when parameter values
 repeat

---
 echidna/fit/minimise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 71b6519..0f47bfb 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -684,9 +684,9 @@ class GridSearch(FitResults, Minimiser):
         """
         if index < len(values):
             parameter = self._fit_config.get_par_by_index(index)
-            for value in parameter.get_values():
+            for i_value, value in enumerate(parameter.get_values()):
                 values[index] = value
-                indices[index] = parameter.get_value_index(value)
+                indices[index] = i_value
                 for values, indices in self._get_values(index+1,
                                                         values, indices):
                     yield values, indices
-- 
2.43.0


From 886977c26d9a6aba992d76bd5a2c1f24b9ad18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 17/97] fix: check the shape of per-bin results

---
 echidna/fit/minimise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 0f47bfb..158e184 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -328,12 +328,12 @@ class GridSearch(FitResults, Minimiser):
                     raise TypeError("Expecting result of type numpy.ndarray "
                                     "(not %s), for per_bin enabled" %
                                     type(result))
-                    expected_shape = self._spectra_config.get_shape()
-                    if result.shape != expected_shape:
-                        raise ValueError(
-                            "Expecting result to be numpy array with shape "
-                            "%s (not %s), for per_bin enabled" %
-                            (str(expected_shape), str(result.shape)))
+                expected_shape = self._spectra_config.get_shape()
+                if result.shape != expected_shape:
+                    raise ValueError(
+                        "Expecting result to be numpy array with shape "
+                        "%s (not %s), for per_bin enabled" %
+                        (str(expected_shape), str(result.shape)))
             else:
                 result = numpy.array(result)
             self.set_stat(result, tuple(indices))
-- 
2.43.0


From 5092b91519f71b93b654d1e7dc16c75bb4826251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 18/97] fix: raise the documented error for a value that is not
 on the grid

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index c48bb1c..780c9d7 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -513,7 +513,7 @@ class FitParameter(Parameter):
         """
         indices = numpy.where(self.get_values() == value)[0]
         if len(indices) == 0:
-            raise ValueError("No value %.2g found in parameter values " +
+            raise ValueError("No value %.2g found in parameter values "
                              "for parameter %s." % (value, self._name))
         return int(indices[0])
 
-- 
2.43.0


From dded287aba43cce0a2abafb87f6e767a70005274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 19/97] fix: look up the nearest grid value, not the first
 within 1e-8

---
 echidna/core/parameter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 780c9d7..c8e2a4a 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -311,11 +311,12 @@ class FitParameter(Parameter):
         Returns:
           int: Bin index.
         """
-        try:
-            return numpy.where(numpy.isclose(self.get_values(), value))[0][0]
-        except:
-            return int((value - self._low) / (self._high - self._low) *
-                       self._bins)
+        values = self.get_values()
+        nearest = numpy.argmin(numpy.absolute(values - value))
+        if numpy.isclose(values[nearest], value):
+            return nearest
+        return int((value - self._low) / (self._high - self._low) *
+                   self._bins)
 
     def get_bin_boundaries(self):
         """ ***PENDING DEPRECATION***
-- 
2.43.0


From f61578380daeca07dbeb00cfdf5cab18d8cefd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 20/97] fix: slice the test statistic grid at parameter values

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 158e184..560ac9c 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -193,7 +193,7 @@ class GridSearch(FitResults, Minimiser):
             cmd = "stats["
             for par in self._fit_config.get_pars():
                 if par in kwargs:
-                    idx = par.get_bin(kwargs[par])
+                    idx = self._fit_config.get_par(par).get_bin(kwargs[par])
                     cmd += str(idx)+","
                 else:
                     cmd += ":,"
-- 
2.43.0


From 966baf31017e8e147611000a487ec02a7f46715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 21/97] fix: return single raw test statistics at given
 parameter values

---
 echidna/fit/minimise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 560ac9c..bece438 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -215,11 +215,9 @@ class GridSearch(FitResults, Minimiser):
             par = self._fit_config.get_par(par_name)
             bins.append(par.get_bin(kwargs[par_name]))
         stats = copy.copy(self._stats[tuple(bins)])
-        while stats.shape[0] == 1:
+        while stats.shape and stats.shape[0] == 1:
             stats = stats.sum(0)
-        if type(stats) is float:
-            return stats
-        while stats.shape[-1] == 1:
+        while stats.shape and stats.shape[-1] == 1:
             stats = stats.sum(-1)
         return stats
 
-- 
2.43.0


From faafc291a90ca2a32a777437441956b192ddf8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 22/97] fix: reset the grids to the shape they are created with

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index bece438..166d8d8 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -470,8 +470,9 @@ class GridSearch(FitResults, Minimiser):
                 new_name += "_" + part
             self._resets += 1
             self._name = new_name + "_" + str(self._resets)
-        stats_shape = (self._fit_config.get_shape() +
-                       self._spectra_config.get_shape())
+        stats_shape = self._fit_config.get_shape()
+        if self._per_bin:
+            stats_shape += self._spectra_config.get_shape()
         self._stats = numpy.zeros(stats_shape)
         self._penalty_terms = numpy.zeros(self._fit_config.get_shape())
 
-- 
2.43.0


From 76d27ea0c444cb4ea5157bb5c8d1b8e7172ef0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 23/97] fix: make projections of the test statistic grid work

---
 echidna/fit/minimise.py | 43 ++++++++++-------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 166d8d8..8c32185 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -389,24 +389,21 @@ class GridSearch(FitResults, Minimiser):
           IndexError: If the parameter names supplied do not match
             any of those stored in the fit or spectra configs.
         """
+        fit_pars = list(self._fit_config.get_pars())
+        spectra_pars = list(self._spectra_config.get_pars())
         for parameter in parameters:
-            if parameter not in itertools.chain(
-                    self._fit_config.get_pars(),
-                    self._spectra_config.get_pars()):
+            if parameter not in fit_pars + spectra_pars:
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        axes = fit_pars[len(indices):]  # Axes left after indexing
+        if all(parameter in fit_pars for parameter in parameters):
             # Can apply penalty term contributions
             projection = self.get_stat(indices)
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
         else:  # No penalty terms, use raw stats
             projection = copy.copy(self.get_raw_stat(indices))
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+            axes += spectra_pars
+        for axis in reversed(range(len(axes))):
+            if axes[axis] not in parameters:
+                projection = numpy.sum(projection, axis=axis)
         return projection
 
     def nd_project_stats(self, *parameters):
@@ -431,27 +428,7 @@ class GridSearch(FitResults, Minimiser):
           IndexError: If the parameter names supplied do not match
             any of those stored in the fit or spectra configs.
         """
-        for parameter in parameters:
-            if parameter not in itertools.chain(
-                    self._fit_config.get_pars(),
-                    self._spectra_config.get_pars()):
-                raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
-            # Can apply penalty term contributions
-            projection = self.get_stats()
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
-        else:  # No penalty terms, use raw stats
-            projection = copy.copy(self.get_raw_stats())
-            counter = 0
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=(axis-counter))
-                    counter = counter + 1  # compensate for earlier sums
-        return projection
+        return self.nd_project_stat((), *parameters)
 
     def reset_grids(self):
         """ Resets the grids stored in :attr:`_stats` and
-- 
2.43.0


From 775b4eeb2fbe684a58149c05f99a013c96faf0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 24/97] fix: give logscale_deviation grids the requested number
 of values

---
 echidna/core/parameter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index c8e2a4a..79610c9 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -463,8 +463,12 @@ class FitParameter(Parameter):
                 # Calculate bins above and below, distributing evenly
                 bins_low = numpy.rint(
                     (delta_low) / (delta_low + delta_high) * (self._bins + 1))
-                bins_high = numpy.rint(
-                    (delta_high) / (delta_low + delta_high) * (self._bins + 1))
+                # Keep the prior, low and high, whenever there are bins for them
+                min_low = 2 if delta_low > 0. and self._bins > 2 else 1
+                min_high = 2 if delta_high > 0. and self._bins > 2 else 1
+                bins_low = int(numpy.clip(bins_low, min_low,
+                                          self._bins + 1 - min_high))
+                bins_high = self._bins + 1 - bins_low  # Prior is in both
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From f18ca2e8d6e12e0105881f5750d3bebe468644c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 25/97] fix: let set_par change values that were or become
 None, and keep bins an int

---
 echidna/core/parameter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 79610c9..040d06c 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -562,8 +562,8 @@ class FitParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:
-            self._logger.warning("Updating value for %s (%.4g --> %.4g)" %
-                                 (kw, self.__dict__["_"+kw], kwargs[kw]))
+            self._logger.warning("Updating value for %s (%s --> %s)" %
+                                 (kw, self.__dict__.get("_"+kw), kwargs[kw]))
             if kw == "prior":
                 self._prior = float(kwargs[kw])
             elif kw == "sigma":
@@ -576,7 +576,7 @@ class FitParameter(Parameter):
             elif kw == "high":
                 self._high = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = float(kwargs[kw])
+                self._bins = int(kwargs[kw])
             elif kw == "logscale":
                 self._logscale = bool(kwargs[kw])
             elif kw == "base":
-- 
2.43.0


From d34a8ccaa0324f50e1593ef54f431e9aa1ef3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 26/97] fix: refuse unknown settings before changing a fit
 parameter

---
 echidna/core/parameter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 040d06c..0be3949 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -561,6 +561,10 @@ class FitParameter(Parameter):
         Raises:
           TypeError: Unknown variable type passed as a kwarg.
         """
+        for kw in kwargs:  # Check all before changing any
+            if kw not in ("prior", "sigma", "low", "high", "bins", "logscale",
+                          "base", "logscale_deviation", "dimension"):
+                raise TypeError("Unhandled parameter name / type %s" % kw)
         for kw in kwargs:
             self._logger.warning("Updating value for %s (%s --> %s)" %
                                  (kw, self.__dict__.get("_"+kw), kwargs[kw]))
-- 
2.43.0


From eb17cc319b84e13f389a8b9a286b0cf051730048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 27/97] fix: apply every global parameter to the signal, not
 only the last one

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9809817..fdeea2e 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -539,8 +539,9 @@ class Fit(object):
                         signal = self.load_pre_made(self._signal,
                                                     global_pars)
                     else:
+                        signal = self._signal
                         for parameter in global_pars:
-                            signal = parameter.apply_to(self._signal)
+                            signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
                     self._global_dict[background_name][cur_val] = signal
                 else:
-- 
2.43.0


From 9a9931cb85e6ee8e2df22cca48923fe7ed8a1bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 28/97] fix: evaluate the fit on copies of the floating
 backgrounds and signal

---
 echidna/fit/fit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index fdeea2e..018f183 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -509,7 +509,9 @@ class Fit(object):
                 else:
                     spectrum = self._global_dict[background_name][cur_val]
 
-            # Apply spectrum-specific parameters
+            # Apply spectrum-specific parameters, to a copy so that the stored
+            # spectrum is unchanged
+            spectrum = copy.copy(spectrum)
             if spectrum._fit_config:
                 for par_name in spectrum._fit_config.get_pars():
                     parameter = spectrum._fit_config.get_par(par_name)
@@ -546,6 +548,8 @@ class Fit(object):
                     self._global_dict[background_name][cur_val] = signal
                 else:
                     signal = self._global_dict[background_name][cur_val]
+                # Copy so stored spectrum is unchanged
+                signal = copy.copy(signal)
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
                 signal.scale(num_decays)
-- 
2.43.0


From a1839246128609b425ff3c97aceec3ea34e5c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 29/97] fix: store convolved spectra per spectrum, not per
 background name

---
 echidna/fit/fit.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 018f183..76d2cf2 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -494,10 +494,11 @@ class Fit(object):
                                            self._floating_pars):
             # Apply global parameters first
             if global_pars:
-                background_name = spectrum.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                # The name is not unique, so use the spectrum itself as key
+                if spectrum not in self._global_dict:
+                    self._global_dict[spectrum] = {}
+                convolved = self._global_dict[spectrum]
+                if cur_val not in convolved:
                     fit_config = spectrum._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         spectrum = self.load_pre_made(spectrum, global_pars)
@@ -505,9 +506,9 @@ class Fit(object):
                         for parameter in global_pars:
                             spectrum = parameter.apply_to(spectrum)
                     spectrum._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = spectrum
+                    convolved[cur_val] = spectrum
                 else:
-                    spectrum = self._global_dict[background_name][cur_val]
+                    spectrum = convolved[cur_val]
 
             # Apply spectrum-specific parameters, to a copy so that the stored
             # spectrum is unchanged
@@ -532,10 +533,10 @@ class Fit(object):
         if self._signal:
             if global_pars:
                 num_decays = self._signal._num_decays
-                background_name = self._signal.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                if self._signal not in self._global_dict:
+                    self._global_dict[self._signal] = {}
+                convolved = self._global_dict[self._signal]
+                if cur_val not in convolved:
                     fit_config = self._signal._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         signal = self.load_pre_made(self._signal,
@@ -545,9 +546,9 @@ class Fit(object):
                         for parameter in global_pars:
                             signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = signal
+                    convolved[cur_val] = signal
                 else:
-                    signal = self._global_dict[background_name][cur_val]
+                    signal = convolved[cur_val]
                 # Copy so stored spectrum is unchanged
                 signal = copy.copy(signal)
                 self.shrink_to_data(signal)
-- 
2.43.0


From a79af404cecbb06661d046b99dd017d8e88938d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 30/97] fix: raise the documented error for a roi entry of the
 wrong length

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 76d2cf2..b37dbbb 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -307,7 +307,7 @@ class Fit(object):
             if len(roi[dim]) != 2:
                 raise CompatibilityError("%s entry (%s) in roi must contain a"
                                          " low and high value in a tuple or"
-                                         " list" % (dim, self._roi[dim]))
+                                         " list" % (dim, roi[dim]))
             if roi[dim][0] > roi[dim][1]:  # Make sure low is first
                 roi[dim] = roi[dim][::-1]  # Reverses list/tuple
 
-- 
2.43.0


From 5f12ededc8471d2816fc674fe2c4e06b1d5fbe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 31/97] fix: give the per-bin results of a fit the binning of
 the data

---
 echidna/fit/fit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index b37dbbb..6ee3d29 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -765,8 +765,8 @@ class Fit(object):
                 if self._floating_backgrounds:
                     self._minimiser = GridSearch(
                         fit_config=self._fit_config,
-                        spectra_config=self._floating_backgrounds[0].
-                        get_config(),
+                        # Floating backgrounds are rebinned to the data
+                        spectra_config=self._data.get_config(),
                         name=self._fit_config.get_name(),
                         # This assumes fitting over all dimensions
                         per_bin=self._per_bin)
-- 
2.43.0


From c81b02a694b94e36d419cd6a5409b53fc97c4779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 32/97] fix: use a supplied minimum statistic that is zero or
 an array

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index aa33dcc..e8b7808 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -120,7 +120,7 @@ class Limit(object):
         """
         par = self._signal.get_fit_config().get_par("rate")
 
-        if min_stat:  # If supplied specific stat_zero use this
+        if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
         else:  # check zero signal stat in case its not in self._stats
-- 
2.43.0


From 8c7ac35903b2a6365dc2da03e81b41c5525517ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 33/97] fix: set limits with fit parameters that have no sigma

---
 echidna/limit/limit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index e8b7808..5973bdb 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -202,8 +202,9 @@ class Limit(object):
                                                               parameter))
                 log_text += ("Prior: %.4g\n" %
                              cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" %
-                             cur_par.get_sigma())
+                sigma = cur_par.get_sigma()
+                if sigma is not None:  # There is a penalty term
+                    log_text += "Sigma: %.4g\n" % sigma
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
@@ -263,7 +264,9 @@ class Limit(object):
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
                 log_text += ("Prior: %.4g\n" % cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" % cur_par.get_sigma())
+                sigma = cur_par.get_sigma()
+                if sigma is not None:  # There is a penalty term
+                    log_text += "Sigma: %.4g\n" % sigma
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
-- 
2.43.0


From 305abe1eb5f58d7f13858b0137595f178109848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 34/97] fix: return the stored statistic from get_limit_stat

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 9f35a0d..c8cfa04 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -210,7 +210,7 @@ class LimitResults(FitResults):
         Returns:
           float: The test statistic without the penalty contribution.
         """
-        return self._limit_stat[i]
+        return self._stats[i]
 
     def get_stats(self):
         """Gets the test statistics without the penalty contribution.
-- 
2.43.0


From 123e2ecee466eef4a4af1b404dc0a43e09c3cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 35/97] fix: find the best-fit signal scale from per-bin
 statistics

---
 echidna/fit/fit_results.py | 2 +-
 echidna/limit/limit.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index c8cfa04..d408239 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -192,7 +192,7 @@ class LimitResults(FitResults):
         Returns:
           numpy.ndarray: The test statistics array with penalty terms addded.
         """
-        stats = numpy.zeros(self._stats.shape)
+        stats = numpy.zeros(len(self._stats))  # Summed over bins, if per_bin
         for i, stat in enumerate(self._stats):
             stat = numpy.sum(stat)
             for penalty in self._penalty_terms[i]:
diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 5973bdb..c03516a 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -182,7 +182,7 @@ class Limit(object):
         stats -= min_stat
 
         # Also want to know index of minimum
-        min_bin = numpy.argmin(stats)
+        min_bin = numpy.argmin([numpy.sum(stat) for stat in stats])
 
         self._limit_results._stats = stats
         stats = self._limit_results.get_full_stats()
-- 
2.43.0


From de933260527498c6a6cf97afd193840f9b719ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 36/97] fix: report the limit and best fit of the right signal
 scale

---
 echidna/limit/limit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index c03516a..18f2e5c 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -190,8 +190,8 @@ class Limit(object):
         try:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.where(stats[min_bin:] > limit)[0][0]
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]
+            limit = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nLimit found at:\n"
             log_text += "Signal Decays: %.4g\n" % limit
             for parameter in self._fitter.get_fit_config().get_pars():
@@ -253,10 +253,10 @@ class Limit(object):
         except IndexError as detail:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.argmax(stats[min_bin:])
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.argmax(stats[min_bin:])
+            max_scale = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nNo limit found:\n"
-            log_text += "Signal Decays (at max stat): %.4g\n" % limit
+            log_text += "Signal Decays (at max stat): %.4g\n" % max_scale
             for parameter in self._fitter.get_fit_config().get_pars():
                 cur_par = self._fitter.get_fit_config().get_par(parameter)
                 log_text += "--- systematic: %s ---\n" % parameter
-- 
2.43.0


From 48435adf0f0c6abe08abecb791cb47b135055f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 37/97] fix: save the spectra of a limit in groups of their own

---
 echidna/limit/limit.py  | 35 ++++++++++++++++++++++-------------
 echidna/output/store.py | 11 +++++++----
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 18f2e5c..fdcc3f2 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -232,21 +232,23 @@ class Limit(object):
                 path = output.__default_save_path__ + "/"
                 fname = self._fitter.get_data()._name + "_data.hdf5"
                 store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
+                           append=True, overwrite=True, group_name="data")
                 if self._fitter.get_fixed_background():
                     fname = (self._fitter.get_fixed_background()._name +
                              "_fixed.hdf5")
                     store.dump(path + fname,
                                self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
+                               append=True, overwrite=True,
+                               group_name="fixed")
                 if self._fitter.get_floating_backgrounds():
                     for background in self._fitter.get_floating_backgrounds():
                         fname = background._name + "_float.hdf5"
                         store.dump(path + fname, background, append=True,
+                                   overwrite=True,
                                    group_name=background.get_name())
                 fname = self._signal._name + "_signal.hdf5"
                 store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+                           overwrite=True, group_name="signal")
 
             return limit
 
@@ -275,29 +277,36 @@ class Limit(object):
             log_text += "N.D.F.: 1\n"  # Only fit one dof currently
             logging.getLogger("extra").info("\n%s" % log_text)
 
-            if store_limit:
+            if limit_fname:
+                if limit_fname[-5:] != '.hdf5':
+                    limit_fname += '.hdf5'
+            else:
                 timestamp = datetime.datetime.now().strftime(
                     "%Y-%m-%d_%H-%M-%S")
                 path = output.__default_save_path__ + "/"
                 fname = (self._limit_results.get_name() + "_" + timestamp +
                          ".hdf5")
-                store.dump_limit_results(path + fname, self._limit_results)
+                limit_fname = path + fname
+            if store_limit:
+                store.dump_limit_results(limit_fname, self._limit_results)
                 self._logger.info("Saved summary of %s to file %s" %
                                   (self._limit_results.get_name(),
-                                   path + fname))
+                                   limit_fname))
             if store_spectra:
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
+                store.dump(limit_fname, self._fitter.get_data(),
+                           append=True, overwrite=True, group_name="data")
                 if self._fitter.get_fixed_background():
-                    store.dump(path + fname,
+                    store.dump(limit_fname,
                                self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
+                               append=True, overwrite=True,
+                               group_name="fixed")
                 if self._fitter.get_floating_backgrounds():
                     for background in self._fitter.get_floating_backgrounds():
-                        store.dump(path + fname, background, append=True,
+                        store.dump(limit_fname, background, append=True,
+                                   overwrite=True,
                                    group_name=background.get_name())
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+                store.dump(limit_fname, self._signal, append=True,
+                           overwrite=True, group_name="signal")
             self._logger.error("Recieived: IndexError: %s" % detail)
             raise LimitError("Unable to find limit. Max stat: %s, Limit: %s"
                              % (stats.max(), limit))
diff --git a/echidna/output/store.py b/echidna/output/store.py
index 905a0de..7ee1a6f 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -78,14 +78,17 @@ def string_to_dict(in_string):
     return out_dict
 
 
-def dump(file_path, spectrum, append=False, overwrite=False):
+def dump(file_path, spectrum, append=False, overwrite=False,
+         group_name="spectrum"):
     """ Dump the spectrum to the file_path.
 
     Args:
       file_path (string): Location to save to.
       spectrum (:class:`spectra.Spectra`): The spectrum to save
+      append (bool, optional): Append to existing hdf5 file.
+      overwrite (bool, optional): Replace an existing group.
+      group_name (string, optional): Name of the hdf5 group to save to.
     """
-    group_name = "spectrum"
     if append:
         file_opt = "a"
     else:
@@ -242,16 +245,16 @@ def dump_limit_results(file_path, limit_results, append=False):
                  (limit_results.get_name(), file_path))
 
 
-def load(file_path):
+def load(file_path, group_name="spectrum"):
     """ Load a spectrum from file_path.
 
     Args:
       file_path (string): Location to save to.
+      group_name (string, optional): Name of the hdf5 group to load.
 
     Returns:
       Loaded spectrum (:class:`spectra.Spectra`).
     """
-    group_name = "spectrum"
     try:
         with h5py.File(file_path, "r") as file_:
             group = file_[group_name]
-- 
2.43.0


From 153a17e96ddf7645bbd06e0d9567b5cb64a66af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 38/97] fix: do not store fits of limits without fit parameters

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index fdcc3f2..d73a901 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -175,7 +175,7 @@ class Limit(object):
                                                      par_name)
                     self._limit_results.set_penalty_term(
                         i, value.get("penalty_term"), par_name)
-                if store_fits:
+                if store_fits and results_summary:  # There were parameters
                     self._limit_results.set_fit_result(i, fit_results)
 
         # Convert stats to delta - subtracting minimum
-- 
2.43.0


From c81289486f35729bd7ded938e45b9b786f166011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:13 +0000
Subject: [PATCH 39/97] fix: keep an empty style when saving a spectrum

---
 echidna/output/store.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 7ee1a6f..2ae9853 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -110,10 +110,8 @@ def dump(file_path, spectrum, append=False, overwrite=False,
         group.attrs["num_decays"] = spectrum.get_num_decays()
         group.attrs["raw_events"] = spectrum._raw_events
         group.attrs["bipo"] = spectrum.get_bipo()
-        if len(spectrum.get_style()) == 0:
-            group.attrs["style"] = ""
-        else:
-            group.attrs["style"] = json.dumps(spectrum.get_style())
+        # Also if empty - otherwise the default style would be loaded
+        group.attrs["style"] = json.dumps(spectrum.get_style())
         if len(spectrum._rois) == 0:
             group.attrs["rois"] = ""
         else:
-- 
2.43.0


From e967fb7bc857c645d7b5dd12804f26f9b1e9d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:13 +0000
Subject: [PATCH 40/97] fix: check the background name before opening the file
 to save to

---
 echidna/output/store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 2ae9853..4ea869b 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -93,13 +93,16 @@ def dump(file_path, spectrum, append=False, overwrite=False,
         file_opt = "a"
     else:
         file_opt = "w"
+    # Check this first - a spectrum that can't be saved must not cost the
+    # file or the group that would be replaced by it
+    background_name = spectrum.get_background_name()
     with h5py.File(file_path, file_opt) as file_:
         if overwrite and group_name in file_.keys():  # Delete existing group
             _logger.warning("Removing existing group %s" % group_name)
             del file_[group_name]
         group = file_.create_group(group_name)
         group.attrs["name"] = spectrum.get_name()
-        group.attrs["background_name"] = spectrum.get_background_name()
+        group.attrs["background_name"] = background_name
         group.attrs["config_name"] = spectrum.get_config().get_name()
         group.attrs["config"] = json.dumps(spectrum.get_config().dump())
         if spectrum.get_fit_config():
-- 
2.43.0


From f0be6379245028f2c31e7872dc6f60903fca70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:38 +0000
Subject: [PATCH 41/97] fix: save the penalty term of a fit parameter, not its
 best fit

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 0be3949..7d1ea2d 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -639,7 +639,7 @@ class FitParameter(Parameter):
         # Add non-basic attributes
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._best_fit
+        parameter_dict["penalty_term"] = self._penalty_term
         return parameter_dict
 
 
-- 
2.43.0


From 4c964d7e33e79935cf322bd5654e9b0a703573f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 42/97] fix: load arrays also into attributes that are not set
 yet

---
 echidna/output/store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 4ea869b..b2abfa9 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -360,7 +360,7 @@ def load_ndarray(file_path, ndarray_object):
     with h5py.File(file_path, "r") as file_:
         for attr_name, attribute in ndarray_object.__dict__.iteritems():
             try:
-                if type(attribute).__name__ == "ndarray":
+                if attr_name in file_.keys():  # saved as an array
                     setattr(ndarray_object, attr_name, file_[attr_name].value)
                 else:
                     setattr(ndarray_object, attr_name, file_.attrs[attr_name])
-- 
2.43.0


From df4de5c2701aed3d0d6f8df8b2021a9638da40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 43/97] fix: keep the default name of a grid search

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 8c32185..b21f633 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -90,7 +90,7 @@ class GridSearch(FitResults, Minimiser):
     def __init__(self, fit_config, spectra_config,
                  name=None, per_bin=False, use_numpy=True):
         super(GridSearch, self).__init__(fit_config, spectra_config, name=name)
-        Minimiser.__init__(self, name, GridSearch, per_bin)
+        Minimiser.__init__(self, self._name, GridSearch, per_bin)
         if per_bin:
             stats_shape = fit_config.get_shape() + spectra_config.get_shape()
         else:
-- 
2.43.0


From f41628d3306b50b4e7f5b780305001faadb8388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 44/97] fix: load fit results without spectral parameters

---
 echidna/output/store.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index b2abfa9..374b7cf 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -396,12 +396,13 @@ def load_fit_results(file_path):
                        object_pairs_hook=OrderedDict),
             name=spectra_config_name)
         fit_config_name = group.attrs["fit_config_name"]
-        fit_config = GlobalFitConfig.load(
-            json.loads(group.attrs["fit_config"],
-                       object_pairs_hook=OrderedDict)[0],
-            spectral_config=json.loads(group.attrs["fit_config"],
-                                       object_pairs_hook=OrderedDict)[1],
-            name=fit_config_name)
+        global_config, spectral_config = json.loads(
+            group.attrs["fit_config"], object_pairs_hook=OrderedDict)
+        if not spectral_config["spectral_fit_parameters"]:
+            spectral_config = None
+        fit_config = GlobalFitConfig.load(global_config,
+                                          spectral_config=spectral_config,
+                                          name=fit_config_name)
 
         stats = group["stats"].value
         if stats.shape == fit_config.get_shape():
-- 
2.43.0


From ab3b3f5f4282bce896411413f11ebe43df23b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 45/97] fix: give a loaded fit config the requested name

---
 echidna/core/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c1cbadf..faffbf6 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -440,23 +440,23 @@ class GlobalFitConfig(Config):
                            "Please check it has the correct form")
         for dim in global_config[main_key]:
             for syst in global_config[main_key][dim]:
-                name = dim + "_" + syst
+                par_name = dim + "_" + syst
                 if syst == 'resolution' or syst == 'resolution_ly':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ResolutionParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'shift':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ShiftParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'scale':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ScaleParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 else:
-- 
2.43.0


From cdc3d9a3ae2df2a53c01523b76c22ca8350b91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:51 +0000
Subject: [PATCH 46/97] fix: load the per-bin fits of a limit as such

---
 echidna/output/store.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 374b7cf..e9c6467 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -477,10 +477,12 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
-                    fit_results = GridSearch(fit_config=fit_config,
-                                             spectra_config=spectra_config,
-                                             name=fit_config_name)
-                    fit_results._stats = sub_group["stats"].value
+                    stats = sub_group["stats"].value
+                    fit_results = GridSearch(
+                        fit_config=fit_config, spectra_config=spectra_config,
+                        name=fit_config_name,
+                        per_bin=(stats.shape != fit_config.get_shape()))
+                    fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
                     fit_results._penalty_terms = sub_group[
                         "penalty_terms"].value
-- 
2.43.0


From 137a40d0c76c2900a850c01f1b9b6e84d5411e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:51 +0000
Subject: [PATCH 47/97] fix: load best fits and penalty terms of the fits of a
 limit separately

---
 echidna/output/store.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index e9c6467..0027465 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -478,9 +478,9 @@ def load_limit_results(file_path):
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
                     stats = sub_group["stats"].value
-                    fit_results = GridSearch(
-                        fit_config=fit_config, spectra_config=spectra_config,
-                        name=fit_config_name,
+                    fit_results = GridSearch(  # with a config of its own
+                        fit_config=copy.deepcopy(fit_config),
+                        spectra_config=spectra_config, name=fit_config_name,
                         per_bin=(stats.shape != fit_config.get_shape()))
                     fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
@@ -489,6 +489,8 @@ def load_limit_results(file_path):
                     for par in fit_results._fit_config.get_pars():
                         p = fit_results._fit_config.get_par(par)
                         p.set_best_fit(limit_results.get_best_fit(i, par))
+                        p.set_penalty_term(
+                            limit_results.get_penalty_term(i, par))
                     limit_results._fit_results[i] = copy.deepcopy(fit_results)
     _logger.info("Loaded LimitResults %s" % limit_results.get_name())
     return limit_results
-- 
2.43.0


From 932bdeb97e540f1f57006ae22f32af9b815e6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:25 +0000
Subject: [PATCH 48/97] fix: keep the names of the fits of a limit

---
 echidna/output/store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 0027465..555e007 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -232,6 +232,7 @@ def dump_limit_results(file_path, limit_results, append=False):
                 sub_group = group.create_group(str(i))
                 if type(fit_result) is GridSearch:
                     sub_group.attrs["exists"] = 1.
+                    sub_group.attrs["name"] = fit_result.get_name()
                     sub_group.create_dataset("penalty_terms",
                                              data=fit_result._penalty_terms,
                                              compression="gzip")
@@ -480,7 +481,9 @@ def load_limit_results(file_path):
                     stats = sub_group["stats"].value
                     fit_results = GridSearch(  # with a config of its own
                         fit_config=copy.deepcopy(fit_config),
-                        spectra_config=spectra_config, name=fit_config_name,
+                        spectra_config=spectra_config,
+                        # Not saved in older files
+                        name=sub_group.attrs.get("name", fit_config_name),
                         per_bin=(stats.shape != fit_config.get_shape()))
                     fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
-- 
2.43.0


From 4176354d84d15f113ffff954052a5d2cc17623ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:25 +0000
Subject: [PATCH 49/97] fix: keep the order of the fit parameters of saved
 results

---
 echidna/output/store.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 555e007..867304d 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -175,6 +175,8 @@ def dump_fit_results(file_path, fit_results, append=False):
         group.attrs["fit_config"] = json.dumps(
             fit_results._fit_config.dump())
         group.attrs["fit_config_name"] = fit_results._fit_config.get_name()
+        group.attrs["fit_config_pars"] = json.dumps(
+            fit_results._fit_config.get_pars())
 
         group.create_dataset("penalty_terms", data=fit_results._penalty_terms,
                              compression="gzip")
@@ -210,6 +212,8 @@ def dump_limit_results(file_path, limit_results, append=False):
         group.attrs["fit_config"] = json.dumps(
             limit_results._fit_config.dump())
         group.attrs["fit_config_name"] = limit_results._fit_config.get_name()
+        group.attrs["fit_config_pars"] = json.dumps(
+            limit_results._fit_config.get_pars())
         group.attrs["limit_config"] = json.dumps(
             limit_results._limit_config.dump())
         group.attrs["limit_config_name"] = \
@@ -373,6 +377,23 @@ def load_ndarray(file_path, ndarray_object):
     return ndarray_object
 
 
+def _order_pars(fit_config, group):
+    """ Restore the order of the fit parameters, i.e. of the axes of the grids.
+
+    The parameters are saved separately for each type and dimension.
+
+    Args:
+      fit_config (:class:`GlobalFitConfig`): Config with all the parameters.
+      group (:class:`h5py.Group`): The hdf5 group of the results.
+    """
+    if "fit_config_pars" not in group.attrs:  # Older file
+        return
+    parameters = fit_config._parameters
+    fit_config._parameters = OrderedDict(
+        (par, parameters[par])
+        for par in json.loads(group.attrs["fit_config_pars"]))
+
+
 def load_fit_results(file_path):
     """ Load a :class:`FitResults` object from file.
 
@@ -404,6 +425,7 @@ def load_fit_results(file_path):
         fit_config = GlobalFitConfig.load(global_config,
                                           spectral_config=spectral_config,
                                           name=fit_config_name)
+        _order_pars(fit_config, group)
 
         stats = group["stats"].value
         if stats.shape == fit_config.get_shape():
@@ -455,6 +477,7 @@ def load_limit_results(file_path):
         else:
             fit_config = GlobalFitConfig.load(global_config,
                                               name=fit_config_name)
+        _order_pars(fit_config, group)
         limit_config = json.loads(group.attrs["limit_config"],
                                   object_pairs_hook=OrderedDict)
         limit_config_name = group.attrs["limit_config_name"]
-- 
2.43.0


From 7cd60185143bc79cb270eff72e72b1f1ff2d8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 50/97] fix: return the type of a config, not its name

---
 echidna/core/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index faffbf6..377615e 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -148,9 +148,9 @@ class Config(object):
         """
         Returns:
           string: Type of :class:`Config` class instance - stored in
-            :attr:`_name`.
+            :attr:`_type`.
         """
-        return self._name
+        return self._type
 
     @classmethod
     @abc.abstractmethod
-- 
2.43.0


From 348314fc18d4c315c5675d6e7b2de9cf205fe8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 51/97] fix: name a config after its file if the name is blank

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 377615e..9cb271c 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -505,7 +505,7 @@ class GlobalFitConfig(Config):
                 open(sf_filename, "r"))
         else:
             spectral_fit_config = None
-        if not name:
+        if name is None:
             return cls.load(config, spectral_config=spectral_fit_config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -650,7 +650,7 @@ class SpectraFitConfig(Config):
             parameters in the file.
         """
         config = yaml_loader.ordered_load(open(filename, 'r'))
-        if not name:
+        if name is None:
             return cls.load(config, spectra_name)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -774,7 +774,7 @@ class SpectraConfig(Config):
         """
         with open(filename, 'r') as stream:
             config = yaml_loader.ordered_load(stream)
-        if not name:
+        if name is None:
             return cls.load(config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
-- 
2.43.0


From 73dee4cb7983ca838505fad5dbabb38c638172d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 52/97] fix: do not write both parts of a fit config to the
 same file

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 9cb271c..3336c9f 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -333,7 +333,7 @@ class GlobalFitConfig(Config):
         if global_fname is None:
             global_fname = "global_fit_config"
         elif global_fname == "":
-            global_fname = self.get_name()
+            global_fname = self.get_name() + "_global"
         if ".yml" not in global_fname:
             global_fname += ".yml"
         with open(path+global_fname, "w") as stream:
@@ -343,7 +343,7 @@ class GlobalFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
@@ -577,7 +577,7 @@ class SpectraFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
-- 
2.43.0


From 1e4095f5b0274a30cf09d07c5bde6d082cc4f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 53/97] fix: write numpy numbers to YAML files

---
 echidna/util/yaml_loader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/echidna/util/yaml_loader.py b/echidna/util/yaml_loader.py
index 42ca6b7..7d7224a 100644
--- a/echidna/util/yaml_loader.py
+++ b/echidna/util/yaml_loader.py
@@ -1,3 +1,4 @@
+import numpy
 import yaml
 from collections import OrderedDict
 
@@ -45,5 +46,12 @@ def ordered_dump(data, stream=None, **kwargs):
             data.items())
 
     OrderedDumper.add_representer(OrderedDict, _dict_representer)
+    # Also numpy types, e.g. best fits
+    OrderedDumper.add_multi_representer(
+        numpy.integer,
+        lambda dumper, data: dumper.represent_int(int(data)))
+    OrderedDumper.add_multi_representer(
+        numpy.floating,
+        lambda dumper, data: dumper.represent_float(float(data)))
 
     yaml.dump(data, stream, OrderedDumper, **kwargs)
-- 
2.43.0


From 9a0335953d32f8fdb37a29db714af541b759ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 54/97] fix: load a logscale parameter saved without a base

---
 echidna/core/parameter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 7d1ea2d..1892468 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -215,6 +215,8 @@ class FitParameter(Parameter):
         self._logscale_deviation = None
         self._bin_boundaries = None
         if logscale:
+            if base is None:  # e.g. logscale was set after initialisation
+                base = numpy.e
             self._logger.info("Setting logscale %s for parameter %s" %
                               (logscale, name))
             logging.getLogger("extra").info(" --> with base: %.4g" % base)
-- 
2.43.0


From 6ca1b63a77021fb8616ada86eb83de008a7a4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 55/97] fix: do not replace a loading or radius of zero by the
 default

---
 echidna/calc/decay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 5a4b045..4814f49 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -62,20 +62,20 @@ class DBIsotope(object):
         self._abundance = abundance
         self._phase_space = phase_space
         self._matrix_element = matrix_element
-        if loading:
+        if loading is not None:
             if loading < 0. or loading > 1.:
                 raise ValueError("Loading ranges from 0 to 1")
             self._loading = loading
         else:
             # Default SNO+ Loading
             self._loading = const._loading
-        if outer_radius:
+        if outer_radius is not None:
             if outer_radius <= 0.:
                 raise ValueError("Outer radius must be positive and non-zero")
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
-        if scint_density:
+        if scint_density is not None:
             self._scint_density = scint_density
         else:
             self._scint_density = const._scint_density
-- 
2.43.0


From 9517848fa509c75eb218830410456b07fe073c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 56/97] fix: do not round down the activity of a whole number
 of counts

---
 echidna/calc/decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 4814f49..ee5f587 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -243,7 +243,7 @@ class DBIsotope(object):
         """
         if livetime <= 0.:
             raise ValueError("Livetime should be positive and non zero")
-        return counts/livetime
+        return counts/float(livetime)  # Both may be integers
 
     def counts_to_eff_mass(self, counts, n_atoms=None, livetime=5.):
         """ Converts from signal counts to effective majorana mass.
-- 
2.43.0


From 05580ea35d9f2cd63b7dd5faf502e30adbb41f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 57/97] fix: count the events and particles of an entry when
 extracting

GetEVCount and GetMCParticleCount were compared without being called.
---
 echidna/core/dsextract.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 83c01b4..0b13006 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -148,7 +148,7 @@ class EnergyExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -170,9 +170,9 @@ class EnergyExtractMC(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -422,7 +422,7 @@ class EnergyExtractTruth(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -444,9 +444,9 @@ class EnergyExtractTruth(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -566,7 +566,7 @@ class RadialExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -587,7 +587,7 @@ class RadialExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -853,7 +853,7 @@ class Radial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -874,7 +874,7 @@ class Radial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -1143,7 +1143,7 @@ class ZRadial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -1164,7 +1164,7 @@ class ZRadial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
-- 
2.43.0


From f7d91d2946616e85938148f6458c85948a533631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 58/97] fix: construct the zradial3 extractors

They did not pass on external to Extractor, nor accept it from the factory.
---
 echidna/core/dsextract.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 0b13006..14512eb 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1092,14 +1092,18 @@ class ZRadial3ExtractMC(Extractor):
       reconstructed position. If False then MC position is used for cuts.
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False,
+                 external=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius)
+        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius,
+                                                external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external:
+            raise ValueError("External is True. No mc pos info for externals")
         self._reco_pos = reco_pos
 
     def fv_cut_ntuple(self, entry):
@@ -1248,14 +1252,19 @@ class ZRadial3ExtractReco(Extractor):
         If False then position cuts will be made on reconstructed position.
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False,
+                 external=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius)
+        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius,
+                                                  external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external and mc_pos:
+            raise ValueError("External and mc_pos are True. Can't have mc_pos "
+                             "for externals.")
         self._mc_pos = mc_pos
 
     def fv_cut_ntuple(self, entry):
-- 
2.43.0


From 212cea29e43ff5a33fb5d72314123fb2dacf379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 59/97] fix: extract the reconstructed zradial3 from ROOT files

It misspelt the getters and lost the sign of z.
---
 echidna/core/dsextract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 14512eb..e7d4a8a 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1341,9 +1341,9 @@ class ZRadial3ExtractReco(Extractor):
           float: Reconstructed
             :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`
         '''
-        if ev.GetDefaultFitVertec().GetPositon()[2] < 0.:
-            return 1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
-                         self._outer_radius) ** 3
+        if ev.GetDefaultFitVertex().GetPosition()[2] < 0.:
+            return -1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
+                          self._outer_radius) ** 3
         else:
             return (ev.GetDefaultFitVertex().GetPosition().Mag() /
                     self._outer_radius) ** 3
-- 
2.43.0


From 24b30a756de0c90d03c7d531724294446b2d0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 60/97] fix: require a valid position to extract a
 reconstructed radius

Radial3ExtractReco and ZRadial3ExtractReco checked the fitted energy instead.
---
 echidna/core/dsextract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index e7d4a8a..b04989e 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1023,8 +1023,8 @@ class Radial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
@@ -1323,8 +1323,8 @@ class ZRadial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
-- 
2.43.0


From 496770d0f17618058f9b35c137eb206400eed6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 61/97] fix: cut events without a reconstructed position

A cut of MC events on the reconstructed position used the position of a fit
that had failed, where ntuples are cut on scintFit.
---
 echidna/core/dsextract.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index b04989e..8078587 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -154,6 +154,10 @@ class EnergyExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -428,6 +432,10 @@ class EnergyExtractTruth(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -572,6 +580,10 @@ class RadialExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -859,6 +871,10 @@ class Radial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -1153,6 +1169,10 @@ class ZRadial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not (ev.DefaultFitVertexExists() and
+                ev.GetDefaultFitVertex().ContainsPosition() and
+                ev.GetDefaultFitVertex().ValidPosition()):
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
-- 
2.43.0


From 0a97cd65a9ee29da37d4e242dce48455283cd0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 62/97] fix: fill the last event of a bipo ntuple

An event is filled when the next one is read, so the last one was dropped.
---
 echidna/core/fill_spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index ca3860a..aba566d 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -51,6 +51,12 @@ def _bipo_ntuple(spectrum, chain, extractors):
             else:
                 check_next = False
                 break
+    if check_next:  # No event follows the last one
+        try:
+            spectrum.fill(**fill_kwargs)
+            spectrum._raw_events += 1
+        except ValueError:
+            pass
     return spectrum
 
 
-- 
2.43.0


From 80331a5f91b915f1b23ab39b7fff9f582a9883f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 63/97] fix: keep the zeros of whole numbers in pre-convolved
 file names

The values 2, 20 and 200 gave the same file name, as did 1e-10 and 1e-100.
---
 echidna/core/parameter.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 1892468..4b405e8 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -797,8 +797,9 @@ class ResolutionParameter(FitParameter):
         else:
             ext = 'rs'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Strip trailling zero in filename, after the decimal point only
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -911,8 +912,9 @@ class ScaleParameter(FitParameter):
         else:
             directory += 'scale/'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Strip trailling zero in filename, after the decimal point only
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -1025,8 +1027,9 @@ class ShiftParameter(FitParameter):
         else:
             directory += 'shift/'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Strip trailling zero in filename, after the decimal point only
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
-- 
2.43.0


From c8fa7914fbc4b190cbae9185fdea4b72f8f8d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 64/97] fix: keep words of a file name that end like a
 parameter value

Names such as flash_te.hdf5 lost the word ending in sh, so that different
spectra were given the same pre-convolved file.
---
 echidna/core/parameter.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 4b405e8..09556b5 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -419,6 +419,22 @@ class FitParameter(Parameter):
         """
         return self._sigma
 
+    def _is_value(self, string):
+        """ Checks whether part of a filename is a parameter value, as
+        opposed to a word which happens to end like one.
+
+        Args:
+          string (string): Part of a filename
+
+        Returns:
+          bool: True if it is a number.
+        """
+        try:
+            float(string)
+        except ValueError:
+            return False
+        return True
+
     def get_values(self):
         """ Returns an array of values, based on the :attr:`_low`,
         :attr:`_high` and :attr:`_bins` parameters, and any flags
@@ -804,10 +820,10 @@ class ResolutionParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == ext:
+            if x[-2:] == ext and self._is_value(x[:-2]):
                 x = value_string + ext
                 subbed = True
-            elif x[-7:] == ext + ".hdf5":
+            elif x[-7:] == ext + ".hdf5" and self._is_value(x[:-7]):
                 x = value_string + ext + ".hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
@@ -919,10 +935,10 @@ class ScaleParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == "sc":
+            if x[-2:] == "sc" and self._is_value(x[:-2]):
                 x = value_string + "sc"
                 subbed = True
-            elif x[-7:] == "sc.hdf5":
+            elif x[-7:] == "sc.hdf5" and self._is_value(x[:-7]):
                 x = value_string + "sc.hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
@@ -1034,10 +1050,10 @@ class ShiftParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == "sh":
+            if x[-2:] == "sh" and self._is_value(x[:-2]):
                 x = value_string + "sh"
                 subbed = True
-            elif x[-7:] == "sh.hdf5":
+            elif x[-7:] == "sh.hdf5" and self._is_value(x[:-7]):
                 x = value_string + "sh.hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
-- 
2.43.0


From 5cd35a46b866e065dcfcbb362c51a2f5c81d8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:33 +0000
Subject: [PATCH 65/97] fix: use the directory of pre-made spectra that is set

set_pre_made_dir set an attribute that nothing read.
---
 echidna/fit/fit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 6ee3d29..8c63c31 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -72,7 +72,7 @@ class Fit(object):
       _checked (bool): If True then the fit class is ready to be used.
       _use_pre_made (bool): Flag whether to load a pre-made spectrum
         for each systematic value, or apply convolutions on the fly.
-      _pre_made_dir (string): Directory in which pre-made convolved
+      _pre_made_base_dir (string): Directory in which pre-made convolved
         spectra are stored.
     """
     def __init__(self, roi, test_statistic, fit_config=None, data=None,
@@ -839,7 +839,7 @@ class Fit(object):
         if not os.path.isdir(directory):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
-        self._pre_made_dir = directory
+        self._pre_made_base_dir = directory
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From 853086ba978f2704197cfb4d8f47a1d41a6d1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:33 +0000
Subject: [PATCH 66/97] fix: look for pre-made spectra below the given
 directory

Without a trailing slash the dimension was appended to the directory's name,
and the directory of a spectrum in the current directory became /.
---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 8c63c31..b22ec7b 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -609,7 +609,8 @@ class Fit(object):
         if self._pre_made_base_dir:
             directory = self._pre_made_base_dir
         else:
-            directory = os.path.dirname(spectrum._location) + '/'
+            directory = os.path.dirname(spectrum._location)
+        directory = os.path.join(directory, '')  # ends in / unless empty
 
         # Add current value of each global parameter
         for par in global_pars:
-- 
2.43.0


From 204b9f967776289f234fadc8b23374e6e1137812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:33 +0000
Subject: [PATCH 67/97] fix: add a dimension to the pre-made directory when it
 changes

A directory such as energy_mc_spectra was taken for the dimension itself, and
returning to an earlier dimension did not add it again.
---
 echidna/fit/fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index b22ec7b..c044633 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -613,10 +613,12 @@ class Fit(object):
         directory = os.path.join(directory, '')  # ends in / unless empty
 
         # Add current value of each global parameter
+        dims = [par._dimension for par in global_pars]
         for par in global_pars:
             dim = par._dimension
             added_dim = False
-            if dim not in directory:
+            # The last dimension in the directory is the one it applies to
+            if [d for d in directory.split('/') if d in dims][-1:] != [dim]:
                 added_dim = True
                 directory += dim + '/'
             directory, filename = par.get_pre_convolved(directory, filename,
-- 
2.43.0


From e40ef474f3fe07b6000e534dd9be0b690315a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 68/97] fix: load pre-made spectra again when their directory
 is changed

The fit kept using the spectra loaded from the previous directory.
---
 echidna/fit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index c044633..588fe31 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -843,6 +843,8 @@ class Fit(object):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
         self._pre_made_base_dir = directory
+        # Spectra loaded so far are those of another directory
+        self._global_dict = {}
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From 292e5619b9a552ad73355a6ae23f9b1e4b99981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 69/97] fix: save next to a file in the current directory

The directory of a path without one became the root directory.
---
 echidna/scripts/dump_scaled.py | 2 +-
 echidna/scripts/dump_shrink.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/scripts/dump_scaled.py b/echidna/scripts/dump_scaled.py
index 8528b1b..c396d6a 100644
--- a/echidna/scripts/dump_scaled.py
+++ b/echidna/scripts/dump_scaled.py
@@ -55,7 +55,7 @@ def main(args):
         else:
             raise ValueError("%s does not exist." % args.dest)
     else:
-        directory = os.path.dirname(args.file) + "/"
+        directory = os.path.join(os.path.dirname(args.file), "")
     filename = os.path.splitext(os.path.basename(args.file))[0]
     scaler = scale.Scale()
     scaler.set_scale_factor(args.scale)
diff --git a/echidna/scripts/dump_shrink.py b/echidna/scripts/dump_shrink.py
index a111746..5619e87 100644
--- a/echidna/scripts/dump_shrink.py
+++ b/echidna/scripts/dump_shrink.py
@@ -73,9 +73,9 @@ def main(args):
         spectrum.shrink(**shrink)
     f_out = args.output
     if not f_out:
-        directory = os.path.dirname(args.input)
+        directory = os.path.join(os.path.dirname(args.input), "")
         filename = os.path.splitext(os.path.basename(args.input))[0]
-        f_out = directory + "/" + filename + "_shrunk.hdf5"
+        f_out = directory + filename + "_shrunk.hdf5"
     store.dump(f_out, spectrum)
     _logger.info("Shrunk "+str(args.input)+", saved to "+str(f_out))
 
-- 
2.43.0


From 243eff93a4aa390a1b34b880ef367750b8c3df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 70/97] fix: accept a shift of zero in dump_shifted

A value that was given, but is zero, was taken for none.
---
 echidna/scripts/dump_shifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_shifted.py b/echidna/scripts/dump_shifted.py
index 1cf1e45..43882eb 100644
--- a/echidna/scripts/dump_shifted.py
+++ b/echidna/scripts/dump_shifted.py
@@ -31,7 +31,7 @@ if __name__ == "__main__":
     if not args.file:
         parser.print_help()
         raise IOError("No file given in command line to shift")
-    if not args.shift:
+    if args.shift is None:
         parser.print_help()
         raise ValueError("No shift value given")
     if not args.dimension:
-- 
2.43.0


From e3fec13d0e3b524e36546dd51b11eb84adbf1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 71/97] fix: plot the parameters of the config in
 dump_spectra_root

SpectraConfig has no getpars, so no spectrum was ever saved.
---
 echidna/scripts/dump_spectra_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index df93f5e..6b5a0a4 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -66,7 +66,7 @@ def plot_spectrum(spec, config):
         be plotted
       config (:class:`SpectraConfig`): configuration object
     """
-    for v in config.getpars():
+    for v in config.get_pars():
         plot.plot_projection(spec, v)
 
 
-- 
2.43.0


From 475b696f67700f701b99ddd4feb555fe7c701bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 72/97] fix: read the list of files to dump

The rows of the file were used as paths, and the two rows of a file as paths
and half-lives.
---
 echidna/scripts/dump_spectra_ntuple.py | 9 +++++----
 echidna/scripts/dump_spectra_root.py   | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/echidna/scripts/dump_spectra_ntuple.py b/echidna/scripts/dump_spectra_ntuple.py
index eabc8c6..2b8c307 100644
--- a/echidna/scripts/dump_spectra_ntuple.py
+++ b/echidna/scripts/dump_spectra_ntuple.py
@@ -88,8 +88,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:  # Skip blank lines
+                file_paths.append(row[0])
     return file_paths
 
 
@@ -116,8 +117,8 @@ if __name__ == "__main__":
     args = parser.parse_args()
 
     if args.read_text_file:  # If passed text file: read, format and dump
-        path_list, half_life_list = read_tab_delim_file(args.read_text_file)
-        for fname, half_life in zip(path_list, half_life_list):
+        path_list = read_tab_delim_file(args.read_text_file)
+        for fname in path_list:
             spectrum_name = fname[fname.rfind('/', 0, -1)+1:]
             read_and_dump_ntuple(fname, args.config, spectrum_name,
                                  args.save_path, args.bipo, args.fv_radius,
diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index 6b5a0a4..341fe5c 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -83,8 +83,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:  # Skip blank lines
+                file_paths.append(row[0])
     return file_paths
 
 
-- 
2.43.0


From 937507e16d7f4d2f32e16dc905a8e33912e9f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 73/97] fix: save and name combined spectra without a trailing
 slash

A save path without it became part of the file name, and a data path without
it lost the last letter of the name.
---
 echidna/scripts/multi_ntuple_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index 2c9366b..0fe52e3 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -75,7 +75,7 @@ def create_combined_ntuple_spectrum(data_path, config_path, bkgnd_name,
     # Plot
     plot_spectrum(spec, config)
     # Dump to file
-    store.dump("%s%s.hdf5" % (save_path, bkgnd_name), spec)
+    store.dump("%s/%s.hdf5" % (save_path, bkgnd_name), spec)
 
 
 def plot_spectrum(spec, config):
@@ -121,7 +121,7 @@ if __name__ == "__main__":
     if args.bkgnd_name:
         bkgnd_name = args.bkgnd_name
     else:
-        bkgnd_name = data_path[data_path.rfind('/', 0, -2)+1:-1]
+        bkgnd_name = os.path.basename(os.path.abspath(data_path))
 
     ##########################################################################
     # Set path to folder created when grabbing ntuples from grid.
-- 
2.43.0


From dfb9bc9fab20a9e81f16845fbf34663bf576bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 74/97] fix: put ROOT surface counts on the requested axes

---
 echidna/output/plot_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0969906..e08fdd7 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -65,6 +65,9 @@ def plot_surface(spectra, dimension1, dimension2, graphical=True, h_name=None):
                      spectra.get_config().get_par(dimension2)._low,
                      spectra.get_config().get_par(dimension2)._high)
     data = spectra.surface(dimension1, dimension2)
+    if (spectra.get_config().get_index(dimension1) >
+            spectra.get_config().get_index(dimension2)):
+        data = data.transpose()  # surface follows the order of the config
     for index_x, data_x in enumerate(data):
         for index_y, datum in enumerate(data_x):
             plot.SetBinContent(index_x + 1, index_y + 1, datum)
-- 
2.43.0


From f40200d67f5f108ee53796768fe9126ee3ac1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 75/97] fix: plot axis always has one point per bin

---
 echidna/output/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index fe1f34e..0ca8489 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -19,8 +19,7 @@ def _produce_axis(spectra, dimension):
       :class:`numpy.array`: The values for the axis.
     """
     par = spectra.get_config().get_par(dimension)
-    width = par.get_width()
-    return numpy.arange(par._low, par._high, width) + 0.5*width
+    return numpy.array(par.get_bin_centres())
 
 
 def _produce_bins(spectra, dimension):
-- 
2.43.0


From ab6694ca52f9d88b3d1e453b57c4fb79b6bf829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 76/97] fix: show every bin of a surface at its own place

---
 echidna/output/plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index 0ca8489..cb54847 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -251,12 +251,13 @@ def plot_surface(spectra, dimension1, dimension2,
     axis = fig.add_subplot(111)
     index1 = spectra.get_config().get_index(dimension1)
     index2 = spectra.get_config().get_index(dimension2)
+    # The color map is drawn between bin boundaries
     if index1 < index2:
-        x = _produce_axis(spectra, dimension2)
-        y = _produce_axis(spectra, dimension1)
+        x = _produce_bins(spectra, dimension2)
+        y = _produce_bins(spectra, dimension1)
     else:
-        x = _produce_axis(spectra, dimension1)
-        y = _produce_axis(spectra, dimension2)
+        x = _produce_bins(spectra, dimension1)
+        y = _produce_bins(spectra, dimension2)
     data = spectra.surface(dimension1, dimension2)
     par1 = spectra.get_config().get_par(dimension1)
     par2 = spectra.get_config().get_par(dimension2)
-- 
2.43.0


From c9807e7c051389ee229d9d9d3ce985454b899a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 77/97] fix: compare the type of a plotted spectrum by value

---
 echidna/output/plot.py      | 2 +-
 echidna/output/plot_root.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index cb54847..93257cb 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -179,7 +179,7 @@ def spectral_plot(spectra_dict, dimension, fig_num=1, show_plot=True,
             color = None
         axis.hist(x, bins=bins, weights=data, histtype="step",
                   label=label, color=color, log=log_y)
-        if value.get("type") is "background":
+        if value.get("type") == "background":
             summed_background = summed_background + spectra.project(dimension)
         summed_total = summed_total + spectra.project(dimension)
     axis.hist(x, bins=bins, weights=summed_background,
diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index e08fdd7..16fdd30 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -152,7 +152,7 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
             first_spectra = False
@@ -172,7 +172,7 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
     # Draw after making hists so they are drawn in the right order
-- 
2.43.0


From fd10b851023eb697777223e6674b768f7c12ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 78/97] fix: draw the ROOT spectral plot from histograms

---
 echidna/output/plot_root.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 16fdd30..cb19a9b 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -135,20 +135,19 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             low = par._low
             high = par._high
             bins = par._bins
-            shape = (bins)  # Shape for summed arrays
             root_labels = "; %s (%s); Counts" % (dimension, par.get_unit())
             summed_background = ROOT.TH1F("summed_background", root_labels,
                                           bins, low, high)
             summed_total = ROOT.TH1F("summed_total", root_labels,
                                      bins, low, high)
-            summed_total = numpy.zeros(shape=shape)
             summed_background.SetLineStyle(7)
             summed_background.SetLineColor(ROOT.kRed)
             summed_total.SetLineStyle(7)
             summed_total.SetLineColor(ROOT.kBlack)
             leg.AddEntry(summed_total, "Background + Signal", "l")
             leg.AddEntry(summed_background, "Background", "l")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
@@ -157,8 +156,8 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             summed_total.Add(hist)
             first_spectra = False
         else:
-            dim_type = spectra.get_config().get_dim_type("energy")
-            par = spectra.get_config().get_par("energy_"+dim_type)
+            dim_type = spectra.get_config().get_dim_type(dimension)
+            par = spectra.get_config().get_par(dimension+"_"+dim_type)
             if par._low != low:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy lower limit")
@@ -168,7 +167,8 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             if par._bins != bins:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy upper limit")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
@@ -183,9 +183,11 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
 
     # Plot limit
     if limit:
-        hist = limit.project(dimension, graphical=False)
+        dim_type = limit.get_config().get_dim_type(dimension)
+        hist = plot_projection(limit, dimension+"_"+dim_type, graphical=False)
         hist.SetLineColor(ROOT.kGray)
         leg.AddEntry(hist, "Kamland-Zen Limit", "l")
+        hist.Draw("same")
     leg.Draw("same")
     return can
 
-- 
2.43.0


From 1e7ac4258cf2903e6d32ed60f6828059168f8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 79/97] fix: plot chi squared against mass and half life

---
 echidna/output/plot_chi_squared.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/output/plot_chi_squared.py b/echidna/output/plot_chi_squared.py
index e1b61ef..fa67f09 100644
--- a/echidna/output/plot_chi_squared.py
+++ b/echidna/output/plot_chi_squared.py
@@ -52,7 +52,7 @@ def chi_squared_vs_signal(signal_config, converter=None, fig_num=1,
     Returns:
       matplotlib.pyplot.figure: Plotted figure.
     """
-    if (converter is None and half_life or effective_mass):
+    if converter is None and (half_life or effective_mass):
         raise TypeError("converter is None. Cannot use 'half_life' or "
                         "'effective_mass' keywords without converter")
     # Fig. 1 (axes generated automatically)
@@ -68,7 +68,7 @@ def chi_squared_vs_signal(signal_config, converter=None, fig_num=1,
     elif half_life:
         x = numpy.zeros(shape=(signal_config.get_chi_squareds()[2].shape))
         for i_bin, count in enumerate(signal_config.get_chi_squareds()[2]):
-            x.append(1./converter.counts_to_half_life(count, **kwargs))
+            x[i_bin] = 1./converter.counts_to_half_life(count, **kwargs)
         plt.xlabel(r"$1/T_{1/2}^{0\nu}$", **BOLD_FONT)
     else:
         x = signal_config.get_chi_squareds()[2]
-- 
2.43.0


From bfb786a3e9b1b1ac42d20c494a172d56b517c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 80/97] fix: save the penalty plot

---
 echidna/output/plot_chi_squared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_chi_squared.py b/echidna/output/plot_chi_squared.py
index fa67f09..108a9d4 100644
--- a/echidna/output/plot_chi_squared.py
+++ b/echidna/output/plot_chi_squared.py
@@ -249,7 +249,7 @@ def penalty_vs_systematic(syst_analyser, fig_num=1, save_as=None):
         label.set_fontsize(MAIN_FONT.get("size"))
 
     if save_as:
-        plt.savefig(kwagrs.get("save_as") + ".png")
+        plt.savefig(save_as + ".png")
     return fig
 
 
-- 
2.43.0


From 2d942d4b11a04d4cdb50bbe5add7ddd727c0a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 81/97] fix: plot of sigmas leaves the best fits alone

---
 echidna/output/plot_root.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index cb19a9b..d112a22 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -430,8 +430,7 @@ def plot_sigma_best_fit_vs_scale(limit_results, par, graphical=True):
     best_fits = limit_results.get_best_fits(par)
     prior = limit_results._fit_config.get_par(par).get_prior()
     sigma = limit_results._fit_config.get_par(par).get_sigma()
-    best_fits -= prior
-    best_fits /= sigma
+    best_fits = (best_fits - prior) / sigma  # Leaves stored results alone
     scales = limit_results.get_scales()
     g = ROOT.TGraph(len(scales), scales, best_fits)
     g.SetMarkerStyle(3)
-- 
2.43.0


From 0822d027186a8fe6cb2f093f2caa1c31d8446dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 82/97] fix: put per-bin statistics on the requested axes

---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index d112a22..32a0ee8 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -475,7 +475,7 @@ def plot_per_bin(fit_results, min_chisq=True, graphical=True,
         x_par = fit_results._spectra_config.get_par(x_dim)
         y_par = fit_results._spectra_config.get_par(y_dim)
         idx_x = fit_results._spectra_config.get_index(x_dim)
-        idx_y = fit_results._spectra_config.get_index(x_dim)
+        idx_y = fit_results._spectra_config.get_index(y_dim)
         h = ROOT.TH2D("chi_sq" + strings.id_generator(),
                       ";" + x_dim + ";" + y_dim + ";#chi^{2}", x_par._bins,
                       x_par._low, x_par._high, y_par._bins, y_par._low,
-- 
2.43.0


From f9244bae99cc7a82bc68c2ae5f467fba98c042c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:27 +0000
Subject: [PATCH 83/97] fix: keep the log in the directory of the profile

---
 echidna/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index f9235c3..d416b00 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -164,7 +164,7 @@ def start_logging(capture_warnings=True, short_name=False, script_name=True):
     logging.basicConfig(
         level=logging.DEBUG,  # Include all logging levels in file
         format=FORMAT,
-        filename=path+filename,
+        filename=os.path.join(path, filename),
         filemode='w')
 
     # Define Handler which writes INFO messages or higher to the sys.stdout
@@ -202,7 +202,7 @@ def start_logging(capture_warnings=True, short_name=False, script_name=True):
 
     # Start logging
     logging.info("echidna-v%s" % echidna.__version__)
-    logging.info("Saving logfile to %s" % path + filename)
+    logging.info("Saving logfile to %s" % os.path.join(path, filename))
     logging.info("Starting script: %s.py" % current_module)
     logging.getLogger("extra").info("Use the 'extra' logger at any time "
                                     "to add extra information.")
-- 
2.43.0


From 2f027a2dd7a35c9d8d456ab1b2d0f6e74d0cb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:36 +0000
Subject: [PATCH 84/97] fix: errors of an array have its shape

---
 echidna/utilities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index d416b00..b27685d 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -66,8 +66,7 @@ def get_array_errors(array, lin_err=0.01, frac_err=None,
             error = numpy.power(10., error)
         errors[index] = error
     errors = errors - array
-    errors.reshape(shape)
-    return errors
+    return errors.reshape(shape)
 
 
 class DispatchingFormatter:
-- 
2.43.0


From bec1a9c2ec380d6313a46420d40eb2ad36667b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 85/97] fix: refuse invalid settings of parameters before
 changing any

A bad value (or, for the dimensions of a spectrum, an unknown name) was found
only after the settings before it had been changed, which left the values of
a fit parameter for the old settings.
---
 echidna/core/parameter.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 09556b5..4c0e2ea 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -580,8 +580,12 @@ class FitParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:  # Check all before changing any
-            if kw not in ("prior", "sigma", "low", "high", "bins", "logscale",
-                          "base", "logscale_deviation", "dimension"):
+            if kw in ("prior", "low", "high", "base"):
+                float(kwargs[kw])
+            elif kw == "bins":
+                int(kwargs[kw])
+            elif kw not in ("sigma", "logscale", "logscale_deviation",
+                            "dimension"):
                 raise TypeError("Unhandled parameter name / type %s" % kw)
         for kw in kwargs:
             self._logger.warning("Updating value for %s (%s --> %s)" %
@@ -1187,6 +1191,13 @@ class SpectraParameter(Parameter):
         Raises:
           TypeError: Unknown variable type passed as a kwarg.
         """
+        for kw in kwargs:  # Check all before changing any
+            if kw in ("low", "high"):
+                float(kwargs[kw])
+            elif kw == "bins":
+                int(kwargs[kw])
+            else:
+                raise TypeError("Unhandled parameter name / type %s" % kw)
         for kw in kwargs:
             if kw == "low":
                 self._low = float(kwargs[kw])
-- 
2.43.0


From 9e5931cfa9a26cc0f80b6e64dd1d13c5a297914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 86/97] fix: set the limit of the signal of the limit

With a supplied min_stat the scan was made with the signal last given to the
fitter, e.g. that of another limit that uses the same fitter.
---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index d73a901..f966b74 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -154,7 +154,7 @@ class Limit(object):
             self._logger.debug("signal scale: %.4g" % scale)
             print "scale", scale
             if not numpy.isclose(scale, 0.):
-                if self._fitter.get_signal() is None:
+                if self._fitter.get_signal() is not self._signal:
                     self._fitter.set_signal(self._signal, shrink=False)
                 self._fitter._signal.scale(scale)
             else:  # want no signal contribution
-- 
2.43.0


From 6ec4c6f0770ade194125f0728adf60723d4fc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 87/97] fix: fit floating backgrounds at their current number
 of decays

---
 echidna/fit/fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 588fe31..18a3e60 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -493,6 +493,7 @@ class Fit(object):
         for spectrum, floating_pars in zip(self._floating_backgrounds,
                                            self._floating_pars):
             # Apply global parameters first
+            num_decays = spectrum._num_decays
             if global_pars:
                 # The name is not unique, so use the spectrum itself as key
                 if spectrum not in self._global_dict:
@@ -513,6 +514,8 @@ class Fit(object):
             # Apply spectrum-specific parameters, to a copy so that the stored
             # spectrum is unchanged
             spectrum = copy.copy(spectrum)
+            if spectrum._num_decays != num_decays:  # Scaled since stored
+                spectrum.scale(num_decays)
             if spectrum._fit_config:
                 for par_name in spectrum._fit_config.get_pars():
                     parameter = spectrum._fit_config.get_par(par_name)
-- 
2.43.0


From ae3e4d1168156cbb90f04ba0d00c062f44a25b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 88/97] fix: convolve spectra that are set or shrunk anew again

---
 echidna/fit/fit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 18a3e60..ccc0d12 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -107,6 +107,8 @@ class Fit(object):
                                  "fixed background or at least one floating "
                                  "is required to run the fit.")
 
+        self._global_dict = {}
+
         if floating_backgrounds:
             self.set_floating_backgrounds(floating_backgrounds)
         else:  # Set both as None for now
@@ -116,8 +118,6 @@ class Fit(object):
                                  "fixed background or at least one floating "
                                  "is required to run the fit.")
 
-        self._global_dict = {}
-
         # Now all floating backgrounds are loaded, check fit par values
         for par in self.get_fit_config().get_spectra_pars():
             par.check_values()  # raises an error if prior is not in values
@@ -748,6 +748,8 @@ class Fit(object):
             else:
                 self.check_spectra(background)
             floating_pars.append(self.get_roi_pars(background))
+            # It may have changed since it was convolved
+            self._global_dict.pop(background, None)
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
 
@@ -828,6 +830,8 @@ class Fit(object):
         """
         if shrink:
             self.shrink_spectra(signal)
+        # It may have changed since it was convolved
+        self._global_dict.pop(signal, None)
         self._signal = signal
         self._logger.debug("Set _signal as Spectra with name %s" %
                            signal.get_name())
@@ -861,6 +865,8 @@ class Fit(object):
         if self._floating_backgrounds:
             for background in self._floating_backgrounds:
                 self.shrink_spectra(background)
+        # Spectra convolved so far had not been shrunk
+        self._global_dict = {}
 
     def shrink_spectra(self, spectra):
         """ Shrinks the spectra used in the fit to the roi.
-- 
2.43.0


From fb0b317e711eefaa289d251cd63cdb8dd19b92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:50 +0000
Subject: [PATCH 89/97] fix: project onto the dimensions of the new region
 after shrinking to it

---
 echidna/fit/fit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index ccc0d12..c04737b 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -858,13 +858,18 @@ class Fit(object):
         """
         if self._data:
             self.shrink_spectra(self._data)
+            self._data_pars = self.get_roi_pars(self._data)
         if self._fixed_background:
             self.shrink_spectra(self._fixed_background)
+            self._fixed_pars = self.get_roi_pars(self._fixed_background)
         if self._signal:
             self.shrink_spectra(self._signal)
+            self._signal_pars = self.get_roi_pars(self._signal)
         if self._floating_backgrounds:
+            self._floating_pars = []
             for background in self._floating_backgrounds:
                 self.shrink_spectra(background)
+                self._floating_pars.append(self.get_roi_pars(background))
         # Spectra convolved so far had not been shrunk
         self._global_dict = {}
 
-- 
2.43.0


From 875ea3bd6ec1d54cd6f98edf4dd746f4fd31ee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:10 +0000
Subject: [PATCH 90/97] fix: pass the position to cut on to the extractors of a
 file

---
 echidna/core/dsextract.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 8078587..6e2ffee 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -23,6 +23,12 @@ def function_factory(dimension, **kwargs):
         kwdict["fv_radius"] = kwargs["fv_radius"]
     if "external" in kwargs:
         kwdict["external"] = kwargs["external"]
+    # Position to use for cuts, if not the extractor's own
+    if dimension.endswith("_reco"):
+        if "mc_pos" in kwargs:
+            kwdict["mc_pos"] = kwargs["mc_pos"]
+    elif "reco_pos" in kwargs:
+        kwdict["reco_pos"] = kwargs["reco_pos"]
     if dimension == "energy_mc":
         return EnergyExtractMC(**kwdict)
     elif dimension == "energy_reco":
-- 
2.43.0


From 841e5d8ad93c95fa517a4bd2fdce3b9caea480b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:30 +0000
Subject: [PATCH 91/97] fix: leave the fit config as it was if floating
 backgrounds are refused

---
 echidna/fit/fit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index c04737b..6f2e1cb 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -741,13 +741,15 @@ class Fit(object):
                                "_floating_backgrounds" % background.get_name())
             if background.get_fit_config():
                 self.check_fit_config(background)
-                # Spectrum has a valid fit config, add to GlobalFit Config
-                self._fit_config.add_config(background.get_fit_config())
             if shrink:
                 self.shrink_spectra(background)
             else:
                 self.check_spectra(background)
             floating_pars.append(self.get_roi_pars(background))
+        for background in floating_backgrounds:
+            if background.get_fit_config():
+                # Spectrum has a valid fit config, add to GlobalFit Config
+                self._fit_config.add_config(background.get_fit_config())
             # It may have changed since it was convolved
             self._global_dict.pop(background, None)
         self._floating_backgrounds = floating_backgrounds
-- 
2.43.0


From 3d2ca92bd57cca3bfa3f7ba850677c7945d1c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:30 +0000
Subject: [PATCH 92/97] fix: check a signal that is not shrunk against the
 region of interest

---
 echidna/fit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 6f2e1cb..900b273 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -832,6 +832,8 @@ class Fit(object):
         """
         if shrink:
             self.shrink_spectra(signal)
+        else:
+            self.check_spectra(signal)
         # It may have changed since it was convolved
         self._global_dict.pop(signal, None)
         self._signal = signal
-- 
2.43.0


From ce8b3fbe85780f0a790250f5ebb1f1ee0ff79c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:30 +0000
Subject: [PATCH 93/97] fix: leave the fixed background as it was if a spectrum
 cannot be appended

---
 echidna/fit/fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 900b273..095e831 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -159,13 +159,16 @@ class Fit(object):
           shrink (bool, optional): If set to True (default), :meth:`shrink`
             method is called on the spectra shrinking it to the ROI.
         '''
+        # Copy so that it is unchanged unless all spectra can be added
+        total_spectrum = copy.copy(self._fixed_background)
         for spectrum, scaling in spectra_dict.iteritems():
             # Copy so original spectra is unchanged
             spectrum = copy.copy(spectrum)
             if shrink:
                 self.shrink_spectra(spectrum)
             spectrum.scale(scaling)
-            self._fixed_background.add(spectrum)
+            total_spectrum.add(spectrum)
+        self._fixed_background = total_spectrum
 
     def check_all_spectra(self):
         """ Ensures that all spectra can be used for fitting.
-- 
2.43.0


From 677be3e0cf6a44e6d405b5a8dfe7c8d79bcab0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:47 +0000
Subject: [PATCH 94/97] fix: make a new grid if the parameters of the fit have
 changed

---
 echidna/fit/minimise.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index b21f633..e8ad18f 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -315,6 +315,14 @@ class GridSearch(FitResults, Minimiser):
         Returns:
           float: Minimum value found during minimisation.
         """
+        # The parameters may have changed since the grid was made
+        shape = self._fit_config.get_shape()
+        if self._penalty_terms.shape != shape:
+            self._penalty_terms = numpy.zeros(shape)
+            if self._per_bin:
+                shape = shape + self._spectra_config.get_shape()
+            self._stats = numpy.zeros(shape)
+
         # Loop over all possible combinations of fit parameter values
         for values, indices in self._get_fit_par_values():
             # Call funct and pass array to it
-- 
2.43.0


From 7fc4a482a94f1c797415518e945e39733ddc3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:47 +0000
Subject: [PATCH 95/97] fix: drop the fit parameters of floating backgrounds
 that are replaced

---
 echidna/core/config.py | 16 ++++++++++++++++
 echidna/fit/fit.py     |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 3336c9f..5b41b1a 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -248,6 +248,22 @@ class GlobalFitConfig(Config):
             raise ValueError("Cannot add %s-type config to a config "
                              "of type %s" % (config._type, self._type))
 
+    def remove_config(self, config):
+        """ Remove the pars from a
+          :class:`echidna.core.spectra.SpectraFitConfig` that have been added
+          to this :class:`echidna.core.spectra.GlobalFitConfig`
+
+        Args:
+          config (:class:`echidna.core.spectra.SpectraFitConfig`): Config to
+            be removed. Other parameters, even if they share a name with one
+            of its parameters, are kept.
+        """
+        for par_name in config.get_pars():
+            par = config.get_par(par_name)
+            if par._name in self._parameters and \
+                    self._parameters[par._name]['par'] is par:
+                del self._parameters[par._name]
+
     def add_par(self, par, par_type):
         """ Add parameter to the global fit config.
 
diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 095e831..708f9c8 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -109,6 +109,7 @@ class Fit(object):
 
         self._global_dict = {}
 
+        self._floating_backgrounds = None
         if floating_backgrounds:
             self.set_floating_backgrounds(floating_backgrounds)
         else:  # Set both as None for now
@@ -749,6 +750,11 @@ class Fit(object):
             else:
                 self.check_spectra(background)
             floating_pars.append(self.get_roi_pars(background))
+        # The parameters of the backgrounds set so far no longer apply
+        if self._floating_backgrounds:
+            for background in self._floating_backgrounds:
+                if background.get_fit_config():
+                    self._fit_config.remove_config(background.get_fit_config())
         for background in floating_backgrounds:
             if background.get_fit_config():
                 # Spectrum has a valid fit config, add to GlobalFit Config
-- 
2.43.0


From 9f02a79f70af6b583c2005f971f7108c94edfb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:35 +0000
Subject: [PATCH 96/97] fix: fit per bin in the bins of the present data

---
 echidna/fit/fit.py      |  2 ++
 echidna/fit/minimise.py | 12 +++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 708f9c8..7b7a868 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -446,6 +446,8 @@ class Fit(object):
         else:  # Pass to minimiser
             if self._minimiser is None:
                 raise AttributeError("Minimiser is not set.")
+            if self._per_bin:  # Data may have been replaced
+                self._minimiser.set_spectra_config(self._data.get_config())
             return self._minimiser.minimise(self._funct, self._test_statistic)
 
     def _funct(self, *args):
diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index e8ad18f..99f289c 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -315,13 +315,15 @@ class GridSearch(FitResults, Minimiser):
         Returns:
           float: Minimum value found during minimisation.
         """
-        # The parameters may have changed since the grid was made
+        # The parameters, or bins, may have changed since the grid was made
         shape = self._fit_config.get_shape()
-        if self._penalty_terms.shape != shape:
+        stats_shape = shape
+        if self._per_bin:
+            stats_shape = shape + self._spectra_config.get_shape()
+        if (self._stats.shape != stats_shape or
+                self._penalty_terms.shape != shape):
+            self._stats = numpy.zeros(stats_shape)
             self._penalty_terms = numpy.zeros(shape)
-            if self._per_bin:
-                shape = shape + self._spectra_config.get_shape()
-            self._stats = numpy.zeros(shape)
 
         # Loop over all possible combinations of fit parameter values
         for values, indices in self._get_fit_par_values():
-- 
2.43.0


From 6e26532dee5c4f9bab77ea963223fb55ecab5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:26 +0000
Subject: [PATCH 97/97] fix: find a prior of zero among the values of a
 parameter

---
 echidna/core/parameter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 4c0e2ea..603ac2c 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -273,8 +273,10 @@ class FitParameter(Parameter):
             logging.getLogger("extra").debug("\n\n%s\n" % str(bad_values))
 
         # Check prior contained in values
-        if not numpy.any(numpy.around(values / self._prior, 12) ==
-                         numpy.around(1., 12)):
+        # Allow for rounding, relative to the largest value as the prior
+        # may be zero
+        tolerance = 1e-12 * numpy.max(numpy.absolute(values))
+        if not numpy.any(numpy.absolute(values - self._prior) <= tolerance):
             warnings.warn("Prior not in values array "
                           "for parameter %s" % self._name)
             logging.getLogger("extra").warning(
-- 
2.43.0

