From ebe06c3d5909b28384ac4322ad8190fc89c070a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/53] fix: evaluate sin(colatitude) directly so that fields
 are finite and accurate next to the poles

---
 chaosmagpy/model_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 02c8b78..ca9e52b 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -924,8 +924,12 @@ def legendre_poly(nmax, theta):
 
     """
 
+    theta = np.asarray(theta, dtype=float)
+
     costh = np.cos(np.radians(theta))
-    sinth = np.sqrt(1-costh**2)
+    # use the angular distance from the nearest pole since sqrt(1 - costh**2)
+    # cancels near the poles, this way sinth is accurate and zero at the poles
+    sinth = np.sin(np.radians(np.where(theta > 90., 180. - theta, theta)))
 
     Pnm = np.zeros((nmax+1, nmax+2) + costh.shape)
     Pnm[0, 0] = 1.  # is copied into trailing dimensions
-- 
2.43.0


From a51dc244cf867f2ee74da1299a07acc10f816d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 02/53] fix: refuse colatitudes outside [0, 180] also when the
 input includes a pole

---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index ca9e52b..2e86add 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -501,7 +501,7 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta_max = np.amax(theta)
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
@@ -790,7 +790,7 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
-- 
2.43.0


From 959f5480b1f253d5dbd0a10914e072237a50b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 03/53] fix: sensitivity failed for integer coefficient arrays

---
 chaosmagpy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 2e86add..c95d917 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -1161,7 +1161,7 @@ def sensitivity(coeffs, coeffs_true):
 
     nmax = int(np.sqrt(coeffs.size + 1) - 1)
 
-    S = coeffs - coeffs_true
+    S = np.asarray(coeffs - coeffs_true, dtype=float)
 
     # apply degree-dependent scaling
     for n in range(1, nmax+1):
-- 
2.43.0


From 6fc0f8a97a906baa24bc1afe3abdd1cfbfbfbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 04/53] fix: Taylor coefficients of quadratic and higher-order
 extrapolation lacked the factorial

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index a602014..4d925cc 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -29,6 +29,7 @@ other geomagnetic field models.
 
 """
 
+import math
 import numpy as np
 import os
 import warnings
@@ -201,7 +202,7 @@ class Base(object):
                 for x in [start, end]:  # left and right
                     bin = np.zeros((self.order, 1, dim))
                     for k in range(key):
-                        bin[-1-k] = PP(x, nu=k)
+                        bin[-1-k] = PP(x, nu=k) / math.factorial(k)
                     PP.extend(bin, np.array([x]))
 
             else:  # no extrapolation
-- 
2.43.0


From e526f7ccb729ad04d0dadd4a3872549a42c7fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 05/53] fix: derivatives at the end of the model period
 depended on the other requested times

---
 chaosmagpy/chaos.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 4d925cc..4f46671 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -153,6 +153,8 @@ class Base(object):
         start = self.breaks[0]
         end = self.breaks[-1]
 
+        extended = False  # extrapolation bins attached to the spline
+
         if (np.amin(time) < start) or (np.amax(time) > end):
 
             dkey = {
@@ -199,6 +201,9 @@ class Base(object):
                           "coefficient time series.")
 
             if key > 0:
+                extended = True
+                PP_model = sip.PPoly.construct_fast(PP.c, PP.x)
+
                 for x in [start, end]:  # left and right
                     bin = np.zeros((self.order, 1, dim))
                     for k in range(key):
@@ -208,10 +213,14 @@ class Base(object):
             else:  # no extrapolation
                 PP.extrapolate = False
 
-        PP = PP.derivative(nu=deriv)
-        coeffs = PP(time) * 365.25**deriv
+        coeffs = PP.derivative(nu=deriv)(time)
 
-        return coeffs
+        if extended:
+            # the endpoint belongs to the model period, not to the extension
+            coeffs = np.where(np.equal(time, end)[..., None],
+                              PP_model.derivative(nu=deriv)(end), coeffs)
+
+        return coeffs * 365.25**deriv
 
     def to_ppdict(self):
         """
-- 
2.43.0


From a237cbffcc248ec7dba1d7578526cd3d2d083bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/53] fix: conversion of B-splines with repeated interior
 knots picked the wrong pieces

---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index c95d917..17b1558 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -257,8 +257,8 @@ def pp_from_bspline(coeffs, knots, order):
         bs = BSpline(knots, coeffs[:, d], degree)
         pp = PPoly.from_spline(bs, extrapolate=False)
 
-        # remove endpoint multiplicities
-        coeffs_pp[:, :, d] = pp.c[:, degree:(degree+pieces)]
+        # remove zero-length pieces (multiplicities of endpoints and knots)
+        coeffs_pp[:, :, d] = pp.c[:, np.diff(knots) > 0.]
 
     return coeffs_pp, breaks
 
-- 
2.43.0


From 64273eac6d5db273faf2c5f7fd198bfed3f9cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 07/53] fix: leave the configuration context with the previous
 value also after errors

---
 chaosmagpy/config_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 50b3525..1705ee0 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -291,8 +291,11 @@ class BasicConfig(dict):
         """
         old_value = self.__getitem__(key)
         self.__setitem__(key, value)
-        yield
-        self.__setitem__(key, old_value)
+        try:
+            yield
+        finally:
+            # already validated when it was set, e.g. file may have disappeared
+            super().__setitem__(key, old_value)
 
 
 # load defaults
-- 
2.43.0


From d49c6b1839e00c6c798b770a21cc97ba91882459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 08/53] fix: in-place changes of array settings altered the
 defaults

---
 chaosmagpy/config_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 1705ee0..d50a48f 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -76,6 +76,7 @@ be accessed after importing chaosmagpy through:
 
 import os
 import re
+import copy
 import json
 import numpy as np
 import warnings
@@ -213,7 +214,8 @@ class BasicConfig(dict):
         Load all default values.
 
         """
-        super().update({key: val for key, (val, _) in self.defaults.items()})
+        super().update({key: copy.copy(val)  # do not hand out the default arrays
+                        for key, (val, _) in self.defaults.items()})
 
     def load(self, filepath):
         """
@@ -299,7 +301,8 @@ class BasicConfig(dict):
 
 
 # load defaults
-basicConfig = BasicConfig({key: val for key, (val, _) in DEFAULTS.items()})
+basicConfig = BasicConfig()
+basicConfig.fullreset()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From ebf7b713a173f6d126a74e30d69514fc1150bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 09/53] fix: path-like settings were saved as null

---
 chaosmagpy/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index d50a48f..93d079e 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -254,6 +254,7 @@ class BasicConfig(dict):
         def default(obj):
             if isinstance(obj, np.ndarray):
                 return obj.tolist()
+            return os.fspath(obj)  # path-like objects
 
         with open(filepath, 'w') as f:
             json.dump(self, f, default=default, indent=4, sort_keys=True)
-- 
2.43.0


From f0bb87a64bfaf9003890a1ada898d546800cbc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 10/53] fix: non-numeric vectors were accepted as settings

---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 93d079e..33a7ab2 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -124,7 +124,7 @@ def check_string(s):
 def check_vector(s, len=None):
     """Check that input is vector of required length."""
     try:
-        s = np.array(s)
+        s = np.array(s, dtype=float)
         assert s.ndim == 1
         if len is not None:
             if s.size != len:
-- 
2.43.0


From abef358948a4360d7e070cdd1a535c0464b99dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 11/53] fix: a rejected configuration file was applied up to
 the invalid entry

---
 chaosmagpy/config_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 33a7ab2..16126ef 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -235,9 +235,12 @@ class BasicConfig(dict):
             warnings.warn(
                 'Configuration dictionary loaded from file is empty.')
 
+        checked = BasicConfig(self)
         for key, value in kwargs.items():
             # check format and set key value pairs
-            self.__setitem__(key, value)
+            checked[key] = value
+
+        super().update(checked)  # only if nothing was rejected
 
     def save(self, filepath):
         """
-- 
2.43.0


From 09af581a9324c4194bf0df79e331ae6011afe092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 12/53] fix: leap year test refused integer types other than
 the default

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index cb076d9..0dfafee 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -522,7 +522,7 @@ def is_leap_year(year):
 
     year = np.asarray(year)
 
-    if not np.issubdtype(year.dtype, int):
+    if not np.issubdtype(year.dtype, np.integer):
         raise TypeError('Expected integer values as the input year. Use '
                         'numpy.floor to extract the integer year '
                         'from decimal years.')
-- 
2.43.0


From ae7b1eafdfdd25538b468a06070bd44694d643f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 13/53] fix: dates beyond the range of datetime64[ns]
 overflowed silently

---
 chaosmagpy/data_utils.py | 43 ++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 0dfafee..6bfac71 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -438,7 +438,11 @@ datetime.datetime(2002, 3, 4)])
 
     if (np.issubdtype(year.dtype, np.dtype(dt.datetime).type) or
             np.issubdtype(year.dtype, np.datetime64)):
-        datetime = year.astype('datetime64[ns]')
+        if year.dtype == object:
+            year = year.astype('datetime64[us]')  # resolution of datetime
+
+        date = year.astype('datetime64[D]')
+        time_of_day = (year - np.datetime64('1970-01-01')) % np.timedelta64(1, 'D')
 
     else:
         # build iso datetime string with str_ (supported in NumPy >= 2.0)
@@ -447,20 +451,21 @@ datetime.datetime(2002, 3, 4)])
         day = np.char.zfill(np.asarray(day, dtype=np.str_), 2)
 
         year_month = np.char.add(np.char.add(year, '-'), month)
-        datetime = np.char.add(np.char.add(year_month, '-'), day)
+        date = np.char.add(np.char.add(year_month, '-'), day)
 
-        datetime = datetime.astype('datetime64[ns]')
+        date = date.astype('datetime64[D]')
 
         # not use iadd here because it doesn't broadcast arrays
-        datetime = (datetime + np.asarray(hour, dtype='timedelta64[h]')
-                    + np.asarray(minute, dtype='timedelta64[m]')
-                    + np.asarray(second, dtype='timedelta64[s]')
-                    + np.asarray(microsecond, dtype='timedelta64[us]')
-                    + np.asarray(nanosecond, dtype='timedelta64[ns]'))
+        time_of_day = (np.asarray(hour, dtype='timedelta64[h]')
+                       + np.asarray(minute, dtype='timedelta64[m]')
+                       + np.asarray(second, dtype='timedelta64[s]')
+                       + np.asarray(microsecond, dtype='timedelta64[us]')
+                       + np.asarray(nanosecond, dtype='timedelta64[ns]'))
 
-    nanoseconds = datetime - np.datetime64('2000-01-01', 'ns')
+    # add days separately, nanoseconds since 2000 overflow for distant dates
+    days = (date - np.datetime64('2000-01-01', 'D')) / np.timedelta64(1, 'D')
 
-    return nanoseconds / np.timedelta64(1, 'D')  # fraction of days
+    return days + time_of_day / np.timedelta64(1, 'D')  # fraction of days
 
 
 def timestamp(time):
@@ -475,7 +480,8 @@ def timestamp(time):
     Returns
     -------
     time : ndarray, shape (...)
-        Array of ``numpy.datetime64[ns]``.
+        Array of ``numpy.datetime64[ns]`` (``numpy.datetime64[us]`` if there
+        are dates that cannot be represented with nanosecond resolution).
 
     Examples
     --------
@@ -488,11 +494,18 @@ def timestamp(time):
 
     """
 
-    # convert mjd2000 to timedelta64[ns]
-    ns = np.asarray(time) * 86400e9 * np.timedelta64(1, 'ns')
+    time = np.asarray(time)
+    days = np.floor(time)
+
+    # datetime64[ns] only covers the years 1678 to 2261
+    overflow = (days < mjd2000(1678)) | (days >= mjd2000(2262))
+    unit = 'us' if np.any(overflow) else 'ns'
+
+    # add days separately, nanoseconds since 2000 overflow for distant dates
+    date = days * np.timedelta64(1, 'D') + np.datetime64('2000-01-01', 'D')
+    ns = (time - days) * 86400e9 * np.timedelta64(1, 'ns')
 
-    # add datetime offset with ns precision
-    return ns + np.datetime64('2000-01-01', 'ns')
+    return date.astype(f'datetime64[{unit}]') + ns.astype(f'timedelta64[{unit}]')
 
 
 def is_leap_year(year):
-- 
2.43.0


From 434b53871b7f1538944ae03af4d7318a6ad23d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 14/53] fix: saving a single epoch given as scalar to SHC-file
 failed

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 6bfac71..91ba9df 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -318,7 +318,7 @@ def save_shcfile(time, coeffs, order=None, filepath=None, nmin=None, nmax=None,
 
     """
 
-    time = np.asarray(time, dtype=float)
+    time = np.atleast_1d(np.asarray(time, dtype=float))
 
     order = 1 if order is None else int(order)
 
-- 
2.43.0


From 9d45c69a1a7a860f25a92af9f427ec73434d9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 15/53] fix: truncated SHC-files were loaded as smaller models

---
 chaosmagpy/data_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 91ba9df..7d8971c 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -277,6 +277,12 @@ def load_shcfile(filepath, leap_year=None, comment=None):
         keys = ['SHC', 'nmin', 'nmax', 'N', 'order', 'step']
         parameters = dict(zip(keys, values))
 
+        # an incomplete file must not be taken for a smaller model
+        ncoeffs = (parameters['nmax'] + 1)**2 - parameters['nmin']**2
+        if data.size != parameters['N'] + ncoeffs*(parameters['N'] + 2):
+            raise ValueError(f'SHC-file "{filepath}" is incomplete or does not '
+                             'agree with its parameter line.')
+
         time = data[:parameters['N']]
         coeffs = data[parameters['N']:].reshape((-1, parameters['N']+2))
         coeffs = coeffs[:, 2:].copy()  # discard columns with n and m
-- 
2.43.0


From aa4bbe987020835578b99c1ef852a51eb6f879c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 16/53] fix: static coefficients with the documented shape were
 rejected

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 4f46671..b8a2707 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -985,7 +985,7 @@ class CHAOS(object):
                 name=name + '_static',
                 breaks=breaks[[0, -1]],
                 order=1,
-                coeffs=coeffs_static,
+                coeffs=np.reshape(coeffs_static, (1, 1, -1)),
                 source='internal'
             )
 
-- 
2.43.0


From 3e8dc46a58d8bf3f342d630997ed5668d84129d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 17/53] fix: Euler angles could not be used without
 pre-rotation angles in meta

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index b8a2707..0cf9963 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1019,7 +1019,7 @@ class CHAOS(object):
 
                 try:
                     Euler_prerotation = meta['params']['Euler_prerotation'][k]
-                except KeyError:
+                except (KeyError, IndexError, TypeError):  # not available
                     Euler_prerotation = None
 
                 model = Base(
-- 
2.43.0


From fd46ae8a1b041ff7f2aea570e0fd5df7d2b18fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 18/53] fix: GSM coefficients of models without static part

---
 chaosmagpy/chaos.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 0cf9963..daef38b 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1575,9 +1575,13 @@ str, {'internal', 'external'}
         # ensure ndarray input
         time = np.asarray(time, dtype=float)
 
-        # use static part to define modelled period
-        start = self.model_static.breaks[0]
-        end = self.model_static.breaks[-1]
+        # use internal part to define modelled period
+        if self.model_static is not None:
+            start, end = self.model_static.breaks[[0, -1]]
+        elif self.model_tdep is not None:
+            start, end = self.model_tdep.breaks[[0, -1]]
+        else:
+            start, end = -np.inf, np.inf
 
         if np.amin(time) < start or np.amax(time) > end:
             warnings.warn(
-- 
2.43.0


From c3e08a657fd64ea56d16a67d53503fef01bc6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 19/53] fix: descriptive error for models without Euler angles

---
 chaosmagpy/chaos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index daef38b..50787b3 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2158,6 +2158,9 @@ str, {'internal', 'external'}
 
         """
 
+        if self.model_euler is None:
+            raise ValueError("Euler angles are missing.")
+
         if satellite not in self.model_euler:
             string = '", "'.join([*self.model_euler.keys()])
             raise ValueError(
-- 
2.43.0


From cb95f0ce16fa9c6b87a4d83a53518c1ff988e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 20/53] fix: static part could not be saved to SHC-file without
 time-dependent part

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 50787b3..8d2afdd 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2236,7 +2236,7 @@ str, {'internal', 'external'}
                 raise ValueError("Static internal field coefficients "
                                  "are missing.")
 
-            nmin = self.model_tdep.nmax + 1
+            nmin = 1 if self.model_tdep is None else self.model_tdep.nmax + 1
             nmax = self.model_static.nmax
             order = 1
 
-- 
2.43.0


From 87609696e9d396c8c61ec4d23c6049f60201a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 21/53] fix: saving an unknown model part to SHC-file was
 silently ignored

---
 chaosmagpy/chaos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 8d2afdd..d01cba1 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2230,7 +2230,7 @@ str, {'internal', 'external'}
             )
 
         # output static field model coefficients
-        if model == 'static':
+        elif model == 'static':
 
             if self.model_static is None:
                 raise ValueError("Static internal field coefficients "
@@ -2255,6 +2255,10 @@ str, {'internal', 'external'}
                 header=header
             )
 
+        else:
+            raise ValueError(f'Unknown model "{model}". '
+                             'Use one of {"tdep", "static"}.')
+
     def save_matfile(self, filepath):
         """
         Save CHAOS model to a MAT-file.
-- 
2.43.0


From 77e81c6806918e82a49f2dc9ff9f14fad12d1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 22/53] fix: loading a MAT-file changed the list of satellite
 names of the caller

---
 chaosmagpy/chaos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index d01cba1..28b09b9 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2540,6 +2540,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     if satellites is None:
         satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
                       'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
+    else:
+        satellites = list(satellites)  # names may be appended below
 
     mat_contents = du.load_matfile(filepath)
 
-- 
2.43.0


From bf9019eb3d3760b24158fcf42cea25a158d1db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 23/53] fix: MAT-files with a single bin of SM offsets could
 not be loaded

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 28b09b9..201759b 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2595,7 +2595,7 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         # reshape to comply with scipy PPoly coefficients
         coeffs_delta = dict()
         coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11']
+        qs11 = model_ext['qs11'].reshape((-1, 2))
         coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
         coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
 
-- 
2.43.0


From 07bcef0cd2875217a41c99ae030426b96a6e9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 24/53] fix: MAT-files with calibration parameters could not be
 loaded again

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 201759b..9cda915 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2352,7 +2352,7 @@ str, {'internal', 'external'}
             for satellite, model in self.model_cal.items():
                 cal.append(model.to_ppdict())
 
-            hdf.write(np.array(cal, dtype=object),
+            hdf.write(np.array(cal, dtype=object).reshape((1, -1)),
                       path='/pp_CAL/',
                       filename=filepath, matlab_compatible=True)
 
-- 
2.43.0


From 7cde8a6c2f8ccaf52a8287644b56b355b2d31dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 25/53] fix: models with Euler angles but without meta data
 could not be saved

---
 chaosmagpy/chaos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 9cda915..9af7061 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2312,7 +2312,7 @@ str, {'internal', 'external'}
 
         if self.model_euler:
             # write Euler angles to matfile for each satellite
-            satellites = self.meta['satellites']
+            satellites = tuple([*self.model_euler.keys()])
 
             t_break_Euler = []  # list of Euler angle breaks for satellites
             alpha = []  # list of alpha for each satellite
@@ -2362,7 +2362,7 @@ str, {'internal', 'external'}
 
             hdf.write(g, path='/g', filename=filepath, matlab_compatible=True)
 
-        if self.meta:
+        if self.meta and 'params' in self.meta:
             hdf.write(self.meta['params'], path='/params', filename=filepath,
                       matlab_compatible=True)
 
-- 
2.43.0


From 4485c5273ea6a19dbd2e2180fff6f41c7ee2ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 26/53] fix: Euler angles of satellites with equal number of
 bins were mixed up in MAT-files

---
 chaosmagpy/chaos.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 9af7061..e61a1cb 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2333,16 +2333,23 @@ str, {'internal', 'external'}
                 gamma.append(self.model_euler[satellite].coeffs[
                     0, :, 2].reshape((-1, 1)).astype(float))
 
-            hdf.write(np.array(t_break_Euler, dtype='object'),
+            # one cell per satellite (also if the arrays have equal shapes)
+            def cell_array(arrays):
+                cells = np.empty((1, len(arrays)), dtype='object')
+                for k, array in enumerate(arrays):
+                    cells[0, k] = array
+                return cells
+
+            hdf.write(cell_array(t_break_Euler),
                       path='/model_Euler/t_break_Euler/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(alpha, dtype='object'),
+            hdf.write(cell_array(alpha),
                       path='/model_Euler/alpha/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(beta, dtype='object'),
+            hdf.write(cell_array(beta),
                       path='/model_Euler/beta/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(gamma, dtype='object'),
+            hdf.write(cell_array(gamma),
                       path='/model_Euler/gamma/',
                       filename=filepath, matlab_compatible=True)
 
@@ -2609,6 +2616,12 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         breaks_euler = None
 
     else:
+        # one array per satellite, cell of single satellite has been unpacked
+        model_euler = {
+            key: (np.atleast_1d(value) if value.dtype == object
+                  else [value.reshape((-1, 1))])
+            for key, value in model_euler.items()}
+
         # append generic satellite name if more data available or reduce
         t_break_Euler = model_euler['t_break_Euler']
         n = len(t_break_Euler)
-- 
2.43.0


From 39974f26885d5a8121b7c24e2fa2b7a7d632af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 27/53] fix: pre-rotation angles of a single satellite loaded
 from MAT-file

---
 chaosmagpy/chaos.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index e61a1cb..5342b1e 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2665,7 +2665,12 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     # load additional parameters
     try:
         params = mat_contents['params']
-        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
+        prerotation = params['Euler_prerotation']
+
+        if prerotation is not None:  # (3,) if there is only one satellite
+            prerotation = np.reshape(prerotation, (-1, 3))
+
+        dict_params = {'Euler_prerotation': prerotation}
 
     except KeyError as err:
         warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
-- 
2.43.0


From e2fba2ba4ae60cdfae5b499da0539bd67531968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 28/53] fix: plotting a power spectrum replaced zeros in the
 array of the caller

---
 chaosmagpy/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/plot_utils.py b/chaosmagpy/plot_utils.py
index 51227d4..27b5bcd 100644
--- a/chaosmagpy/plot_utils.py
+++ b/chaosmagpy/plot_utils.py
@@ -257,7 +257,8 @@ def plot_power_spectrum(spectrum, **kwargs):
     ylabel = kwargs.pop('ylabel')
 
     degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
-    spectrum[spectrum == 0] = np.nan  # remove non-positive values for log
+    # remove non-positive values for log (not in the array of the caller)
+    spectrum = np.where(spectrum == 0, np.nan, spectrum)
 
     # create axis handle
     fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
-- 
2.43.0


From f9dff164c44cf678a0fdee7b112a2c51f1708f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 29/53] fix: a common frequency vector was not aligned with the
 Fourier components

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 199b6d6..0b1d176 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -239,7 +239,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     time = np.array(time[..., None, None, None], dtype=float)
     frequency = 2*np.pi*np.array(frequency, dtype=float)
     if frequency.ndim == 1:
-        frequency.reshape(-1, 1, 1)
+        frequency = frequency.reshape(-1, 1, 1)
     spectrum = np.array(spectrum, dtype=complex)
 
     # output of shape (..., k, n, m)
-- 
2.43.0


From 90aa62499b70bfdf2e2fce3d09ec49919bc64cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 30/53] fix: scaled flag loaded from npz-file was ignored

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0b1d176..9e8a178 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -249,7 +249,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     harmonics = np.empty(freq_t.shape, dtype=complex)
     harmonics = np.cos(freq_t) + 1j*np.sin(freq_t)
 
-    if scaled is False:
+    if not scaled:  # also if loaded from npz-file
         # scale non-offset coefficients by 2 before synthesizing matrices
         harmonics = np.where(frequency > 0.0, 2*harmonics, harmonics)
 
-- 
2.43.0


From 47135adbc420854a76a249136520b67622d470c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 31/53] fix: Nyquist component of even sample numbers was
 synthesised twice

---
 chaosmagpy/coordinate_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 9e8a178..00b74e5 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -395,6 +395,9 @@ shape (``filter``, ``nmax`` (``nmax`` + 2), ``kmax`` (``kmax`` + 2))
     spectrum_full = np.fft.fft(matrix_time, axis=0) / N
     spectrum_full = spectrum_full[:int(N/2+1)]  # remove aliases
 
+    if N % 2 == 0:
+        spectrum_full[-1] /= 2  # has no alias, in contrast to other non-biases
+
     # oscillations per second
     frequency_full = (np.arange(int(N/2+1)) / N) / step / 3600
 
-- 
2.43.0


From 051f54dc6dfc5f706f737d087e2cc4e34d57b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 32/53] fix: phase of the Fourier components did not account
 for the start date

---
 chaosmagpy/coordinate_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 00b74e5..ff06398 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -401,6 +401,10 @@ shape (``filter``, ``nmax`` (``nmax`` + 2), ``kmax`` (``kmax`` + 2))
     # oscillations per second
     frequency_full = (np.arange(int(N/2+1)) / N) / step / 3600
 
+    # refer phase to January 1, 2000, irrespective of the start date
+    phase = -2*np.pi * frequency_full * (24*3600) * start_date
+    spectrum_full *= np.exp(1j*phase)[:, None, None]
+
     if qfunc is None:
         # compute q-response and keep in memory
         q = q_response(frequency_full, nmax)
-- 
2.43.0


From 85f1dfb2883b9fedfeba55219e547c413405a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 33/53] fix: sun position accepted times before 1901

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index ff06398..af78e2a 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -765,7 +765,7 @@ def sun_position(time):
     rad = np.pi / 180
     year = 2000  # reference year for mjd2000
     assert np.all((year + time // 365.25) < 2099) \
-        and np.all((year - time // 365.25) > 1901), \
+        and np.all((year + time // 365.25) >= 1901), \
         ("Time must be between 1901 and 2099.")
 
     frac_day = np.remainder(time, 1)  # decimal fraction of a day
-- 
2.43.0


From 5b54e06a84c1add88a8555441102c54f70d14d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 34/53] fix: zenith angle not-a-number at sub-solar points

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index af78e2a..5f847e4 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -831,7 +831,7 @@ def zenith_angle(time, theta, phi):
     cos_zeta = (np.cos(theta)*np.cos(colat) +
                 np.sin(theta)*np.sin(colat)*np.cos(azim - phi))
 
-    return np.degrees(np.arccos(cos_zeta))
+    return np.degrees(np.arccos(np.clip(cos_zeta, -1., 1.)))
 
 
 def spherical_to_cartesian(radius, theta, phi):
-- 
2.43.0


From a49dad4f325c5318e72aee2e5577773563b0aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 35/53] fix: local time of exactly 24 hours just before
 midnight

---
 chaosmagpy/coordinate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 5f847e4..3279001 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1641,7 +1641,8 @@ def local_time(time, phi):
 
     """
 
-    return np.remainder(time + phi/360, 1)*24
+    fraction = np.remainder(time + phi/360, 1)  # rounds up to 1 if just below 0
+    return np.remainder(fraction, 1)*24
 
 
 def q_response_1D(periods, sigma, radius, n, kind=None):
-- 
2.43.0


From 7a9f45953457096355c90e0c51d41fec3abf0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 36/53] fix: geodetic height not-a-number on and near the
 rotation axis

---
 chaosmagpy/coordinate_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 3279001..a4762ec 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1041,8 +1041,8 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
 
     Q = np.sqrt(1. + 2*e4*P)
 
-    r0 = -P*e2*r / (1. + Q) + np.sqrt(
-        0.5*a2*(1. + 1./Q) - P*(1. - e2)*z2 / (Q*(1. + Q)) - 0.5*P*r2)
+    r0 = -P*e2*r / (1. + Q) + np.sqrt(np.maximum(  # negative by rounding
+        0.5*a2*(1. + 1./Q) - P*(1. - e2)*z2 / (Q*(1. + Q)) - 0.5*P*r2, 0.))
 
     U = np.sqrt((r - e2*r0)**2 + z2)
 
-- 
2.43.0


From 5b3e16e114759212af75b6c8a3a1242eb30c156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 37/53] fix: dipoles given by arrays did not broadcast with
 each other or with time

---
 chaosmagpy/coordinate_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index a4762ec..c08cf85 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -144,8 +144,8 @@ def _dipole_to_unit(*args):
         vector = -vector / np.linalg.norm(vector, axis=-1, keepdims=True)
 
     elif len(args) == 2:
-        theta = np.radians(args[0])
-        phi = np.radians(args[1])
+        theta, phi = np.broadcast_arrays(np.radians(args[0]),
+                                         np.radians(args[1]))
 
         vector = np.stack([np.sin(theta)*np.cos(phi),
                            np.sin(theta)*np.sin(phi),
@@ -153,7 +153,8 @@ def _dipole_to_unit(*args):
 
     elif len(args) == 3:
         # g11, h11, g10: dipole
-        vector = np.stack([args[1], args[2], args[0]], axis=-1)
+        g10, g11, h11 = np.broadcast_arrays(*args)
+        vector = np.stack([g11, h11, g10], axis=-1)
 
         # unit vector, opposite to dipole
         vector = -vector / np.linalg.norm(vector, axis=-1, keepdims=True)
@@ -1142,7 +1143,8 @@ def basevectors_gsm(time, dipole=None):
     x_sun, y_sun, z_sun = spherical_to_cartesian(1, theta_sun, phi_sun)
 
     # create array in which the first unit vector resides in last dimension
-    gsm_1 = np.empty(x_sun.shape + (3,))
+    shape = np.broadcast_shapes(x_sun.shape, vec.shape[:-1])
+    gsm_1 = np.empty(shape + (3,))
     gsm_1[..., 0] = x_sun
     gsm_1[..., 1] = y_sun
     gsm_1[..., 2] = z_sun
@@ -1199,7 +1201,8 @@ def basevectors_sm(time, dipole=None):
     s[..., 2] = z_sun
 
     # set third unit base vector of SM to dipole unit vector
-    sm_3 = np.empty(x_sun.shape + (3,))
+    shape = np.broadcast_shapes(x_sun.shape, vec.shape[:-1])
+    sm_3 = np.empty(shape + (3,))
     sm_3[..., 0] = vec[..., 0]
     sm_3[..., 1] = vec[..., 1]
     sm_3[..., 2] = vec[..., 2]
-- 
2.43.0


From f9387452de9e88c8e4a894d77e9b7b8fe65b3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 38/53] fix: response for a single period given as float raised
 an error

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index c08cf85..ed6587f 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1726,7 +1726,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
     if kind is None:
         kind = 'quadratic'
 
-    periods = np.asarray(periods, dtype=float)  # ensure numpy array
+    periods = np.atleast_1d(np.asarray(periods, dtype=float))  # also for float
     if periods.ndim > 1:
         raise ValueError("Input ``periods`` must be a vector.")
 
-- 
2.43.0


From 128fecbdefc7cd37f2524df59c873cb727730da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 39/53] fix: response of a bare perfectly conducting core
 raised an error

---
 chaosmagpy/coordinate_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index ed6587f..0e79b3b 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1753,6 +1753,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
         qd = np.empty((2,), dtype=complex)
 
         for counter, period in enumerate(periods):
+            b = np.inf  # perfectly conducting core
             for il in range(nl, -1, -1):  # runs over nl...0
                 k = np.sqrt(8.0e-7 * 1.0j * np.pi**2 * sigma[il] / period)
                 z[0] = k*radius[il]*1000
-- 
2.43.0


From 42f2349b7f111dfb20e97f15eb232114f78120b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 40/53] fix: AttributeError instead of ValueError in verbose
 calls without time-dependent part

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 5342b1e..955885e 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1145,8 +1145,9 @@ str, {'internal', 'external'}
         if 'tdep' in source_list:
 
             if verbose:
+                nmax_tdep = getattr(self.model_tdep, 'nmax', None)
                 print(f'Computing time-dependent internal field'
-                      f' up to degree {self.model_tdep.nmax}.')
+                      f' up to degree {nmax_tdep}.')
 
             s = timer()
             B_radius_new, B_theta_new, B_phi_new = self.synth_values_tdep(
-- 
2.43.0


From ddaaaec86abead0ab55d95b68e34745bbc09ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 41/53] fix: rounding added samples to the nodes of an SHC-file

---
 chaosmagpy/chaos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 955885e..bf36e97 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -746,8 +746,8 @@ class BaseModel(Base):
             times = np.array([], dtype=float)
 
             for start, end in zip(self.breaks[:-1], self.breaks[1:]):
-                delta = (end - start) / step
-                times = np.append(times, np.arange(start, end, delta))
+                times = np.append(
+                    times, np.linspace(start, end, num=step, endpoint=False))
 
             times = np.append(times, self.breaks[-1])
 
-- 
2.43.0


From 7fd713ed83fbf07c7d96a1d2d654bfeec3c84d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 42/53] fix: SHC-files with empty lines in the header could not
 be read

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 7d8971c..52ab801 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -259,7 +259,7 @@ def load_shcfile(filepath, leap_year=None, comment=None):
         data = np.array([])
         for line in f.readlines():
 
-            if line.strip().startswith(comment):
+            if not line.strip() or line.strip().startswith(comment):
                 continue
 
             newline = np.fromstring(line, sep=' ')
-- 
2.43.0


From 4320219fee84b60bb89b83a85c870734a9a7402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 43/53] fix: parts of an overwritten MAT-file turned up in the
 saved model

---
 chaosmagpy/chaos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index bf36e97..f4d2df6 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2274,6 +2274,10 @@ str, {'internal', 'external'}
 
         """
 
+        # do not mix the model with the content of an existing file
+        if os.path.isfile(filepath):
+            os.remove(filepath)
+
         # write time-dependent internal field model to matfile
         if self.model_tdep:
             self.model_tdep.save_matfile(filepath)
-- 
2.43.0


From d792b03fa10de0e1dffdce961dee8e3d8d6f0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 44/53] fix: indented comment lines in RC text files were read
 as rows of NaN

---
 chaosmagpy/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 52ab801..484bbb5 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -157,6 +157,9 @@ def load_RC_datfile(filepath=None, parse_dates=None):
     df = pd.read_csv(filepath, sep=r'\s+', comment='#',
                      dtype=column_types, names=column_names)
 
+    # indented comment lines are read as empty rows
+    df = df.dropna(how='all').reset_index(drop=True)
+
     parse_dates = False if parse_dates is None else parse_dates
 
     # set datetime as index
-- 
2.43.0


From 920ead8851fb03719ffa1475ef7c499b3cfed8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 45/53] fix: success of an RC conversion was reported before
 the file was complete

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 484bbb5..430eb36 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -213,7 +213,7 @@ def save_RC_h5file(filepath, read_from=None):
                 else:
                     f.create_dataset(column, data=variable)  # just save floats
 
-            print(f'Successfully saved to {f.filename}.')
+        print(f'Successfully saved to {filepath}.')
 
     except Exception as err:
         warnings.warn(f"Can't save new RC index. Raised exception: '{err}'.")
-- 
2.43.0


From d910bb830eca776e3dab6af861b012464cf4b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 46/53] fix: a piecewise polynomial could not be saved again to
 the same MAT-file

---
 chaosmagpy/chaos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index f4d2df6..3387b25 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -272,6 +272,12 @@ class Base(object):
 
         pp = self.to_ppdict()
 
+        # replace what an existing file contains at this location
+        if os.path.isfile(filepath) and h5py.is_hdf5(filepath):
+            with h5py.File(filepath, 'r+') as f:
+                if path in f:
+                    del f[path]
+
         hdf.write(pp, path=path, filename=filepath, matlab_compatible=True)
 
 
-- 
2.43.0


From 5fbd92a8df316a0ead999b4df0aca57d22a623d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:44 +0000
Subject: [PATCH 47/53] fix: refuse spline text files that end within the
 breaks

A COV-OBS, gufm1 or CALS7K file cut off within its list of breaks was loaded
as a model with all coefficients equal to zero.
---
 chaosmagpy/chaos.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 3387b25..83c0802 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2892,6 +2892,10 @@ def load_CovObs_txtfile(filepath, name=None):
     # convert decimal year to modified Julian date (using 365.25 days/year)
     breaks = du.dyear_to_mjd(tmp[3:], leap_year=False)
 
+    if breaks.size <= order:
+        raise ValueError('Incomplete file: found only {0} breaks, but more than '
+                         '{1} are needed.'.format(breaks.size, order))
+
     # add endpoint multiplicity to conform with scipy's BSpline routine
     knots = mu.augment_breaks(breaks, order)
 
@@ -2983,6 +2987,10 @@ def load_gufm1_txtfile(filepath, name=None):
     # convert decimal year to modified Julian date (using 365.25 days/year)
     breaks = du.dyear_to_mjd(data[2:(nbreaks + 2)], leap_year=False)
 
+    if breaks.size <= order:
+        raise ValueError('Incomplete file: found only {0} breaks, but more than '
+                         '{1} are needed.'.format(breaks.size, order))
+
     # add endpoint multiplicity to "trick" scipy's BSpline routine
     knots = mu.augment_breaks(breaks, order)
 
@@ -3077,6 +3085,10 @@ def load_CALS7K_txtfile(filepath, name=None):
     # convert decimal year to modified Julian date (using 365.25 days/year)
     breaks = du.dyear_to_mjd(breaks, leap_year=False)
 
+    if breaks.size <= order:
+        raise ValueError('Incomplete file: found only {0} breaks, but more than '
+                         '{1} are needed.'.format(breaks.size, order))
+
     # add endpoint multiplicity to "trick" scipy's BSpline routine
     knots = mu.augment_breaks(breaks, order)
 
-- 
2.43.0


From e82b1e0f746cfd2d05e75cb449b4d87a36a2dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 48/53] fix: refuse IGRF files that end before the first or
 within a degree

The loader returned a model of lower degree (or of no coefficients at all) if
the table was cut off.
---
 chaosmagpy/chaos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 83c0802..45b5f3c 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -3188,6 +3188,12 @@ def load_IGRF_txtfile(filepath, name=None):
                 data = np.append(data, newline)
 
     data = np.reshape(data, (-1, breaks.size))
+
+    nmax = int(np.sqrt(data.shape[0] + 1) - 1)
+    if nmax < 1 or data.shape[0] != nmax*(nmax + 2):
+        raise ValueError('Incomplete file: {0} coefficients do not make up '
+                         'complete degrees.'.format(data.shape[0]))
+
     data[:, -1] = 5*data[:, -1] + data[:, -2]  # sv is in the last column
     coeffs = data.T
 
-- 
2.43.0


From 595f7fa7f2267bf485d6797287f8515913a246ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 49/53] fix: collocation matrix was NaN or refused for knots
 that are not native doubles

---
 chaosmagpy/model_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 17b1558..1098c67 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -178,6 +178,10 @@ def colloc_matrix(x, knots, order, deriv=None):
         return np.zeros((max(x.size, 1), knots.size - order))
 
     else:
+        # representation expected by scipy.interpolate
+        x = np.require(x, dtype=float, requirements='A')
+        knots = np.require(knots, dtype=float, requirements=['C', 'A'])
+
         # create spline using scipy.interpolate
         coll = np.empty((max(x.size, 1), knots.size - order))
 
-- 
2.43.0


From 3bac0563b4df3bed2957922fccba01a03d864c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 50/53] fix: piecewise polynomials of integers could not be
 evaluated

---
 chaosmagpy/model_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 1098c67..e390968 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -336,6 +336,10 @@ def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
     # set grid option to false
     grid = False if grid is None else grid
 
+    # representation expected by scipy.interpolate
+    coeffs = np.require(coeffs, dtype=float, requirements='A')
+    breaks = np.require(breaks, dtype=float, requirements=['C', 'A'])
+
     PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
                               extrapolate=False)
 
-- 
2.43.0


From 52dc9b6cfd91e8675e8554af3ea8c180c98a1829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 51/53] fix: colatitudes out of bounds and poles went unnoticed
 next to a NaN

---
 chaosmagpy/coordinate_utils.py | 2 +-
 chaosmagpy/model_utils.py      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 0e79b3b..26c2345 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1274,7 +1274,7 @@ def basevectors_use(theta, phi):
     theta = np.array(np.radians(theta))
     phi = np.array(np.radians(phi))
 
-    if (np.amin(theta) == 0.) or (np.amax(theta) == np.pi):
+    if np.any(theta == 0.) or np.any(theta == np.pi):
         raise ValueError("Basevectors are not defined at poles.")
 
     grid_shape = np.broadcast(theta, phi).shape
diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index e390968..a248508 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -505,8 +505,8 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta = np.asarray(theta, dtype=float)
     phi = np.asarray(phi, dtype=float)
 
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
+    theta_min = np.fmin.reduce(theta, axis=None)  # ignore NaN
+    theta_max = np.fmax.reduce(theta, axis=None)
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
         if (theta_min >= 0.0) and (theta_max <= 180.0):
@@ -793,8 +793,8 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     shape = b.shape
 
-    theta_min = np.amin(theta)
-    theta_max = np.amax(theta)
+    theta_min = np.fmin.reduce(theta, axis=None)  # ignore NaN
+    theta_max = np.fmax.reduce(theta, axis=None)
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-- 
2.43.0


From 1492a8e210f965689d0c17ffdbb195c19ec67618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:28 +0000
Subject: [PATCH 52/53] fix: times outside of the model period went unnoticed
 next to a NaN

---
 chaosmagpy/chaos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 45b5f3c..240de7b 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -155,7 +155,7 @@ class Base(object):
 
         extended = False  # extrapolation bins attached to the spline
 
-        if (np.amin(time) < start) or (np.amax(time) > end):
+        if np.any(np.less(time, start)) or np.any(np.greater(time, end)):
 
             dkey = {
                 'linear': 2,
@@ -1590,7 +1590,7 @@ str, {'internal', 'external'}
         else:
             start, end = -np.inf, np.inf
 
-        if np.amin(time) < start or np.amax(time) > end:
+        if np.any(time < start) or np.any(time > end):
             warnings.warn(
                 'Requested coefficients are outside of the '
                 f'model period from {start} to {end}. Doing linear '
@@ -1798,7 +1798,7 @@ str, {'internal', 'external'}
         # ensure ndarray input
         time = np.asarray(time, dtype=float)
 
-        if np.amin(time) < start or np.amax(time) > end:
+        if np.any(time < start) or np.any(time > end):
             warnings.warn(
                 'Requested coefficients are outside of the '
                 f'model period from {start} to {end}. Doing linear '
-- 
2.43.0


From fb8e945648700b3e791c5a492cf935b2fa649b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 53/53] fix: integer coordinates overflowed or were reduced to
 single precision

---
 chaosmagpy/coordinate_utils.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 26c2345..95cd8af 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -763,6 +763,8 @@ def sun_position(time):
     Geophysical%20Coordinate%20Transformations.htm#appendix2>`_
 
     """
+    time = np.multiply(time, 1.)  # integers may overflow
+
     rad = np.pi / 180
     year = 2000  # reference year for mjd2000
     assert np.all((year + time // 365.25) < 2099) \
@@ -826,8 +828,8 @@ def zenith_angle(time, theta, phi):
 
     colat = np.radians(theta_sun)
     azim = np.radians(phi_sun)
-    theta = np.radians(theta)
-    phi = np.radians(phi)
+    theta = np.radians(np.multiply(theta, 1.))
+    phi = np.radians(np.multiply(phi, 1.))
 
     cos_zeta = (np.cos(theta)*np.cos(colat) +
                 np.sin(theta)*np.sin(colat)*np.cos(azim - phi))
@@ -855,7 +857,9 @@ def spherical_to_cartesian(radius, theta, phi):
 
     """
 
-    theta, phi = np.radians(theta), np.radians(phi)
+    # short integers are otherwise converted to single precision
+    theta = np.radians(np.multiply(theta, 1.))
+    phi = np.radians(np.multiply(phi, 1.))
 
     x = np.array(radius) * np.cos(phi) * np.sin(theta)
     y = np.array(radius) * np.sin(phi) * np.sin(theta)
@@ -882,6 +886,9 @@ def cartesian_to_spherical(x, y, z):
         Longitude in degrees :math:`(-180^\\circ,180^\\circ]`.
     """
 
+    # squares of integers may overflow
+    x, y, z = (np.multiply(component, 1.) for component in (x, y, z))
+
     radius = np.sqrt(x**2 + y**2 + z**2)
     theta = np.arctan2(np.sqrt(x**2 + y**2), z)
     phi = np.arctan2(y, x)
@@ -935,6 +942,9 @@ def gg_to_geo(height, beta, X=None, Z=None):
     a = config_utils.basicConfig['params.ellipsoid'][0]  # equatorial radius
     b = config_utils.basicConfig['params.ellipsoid'][1]  # polar radius
 
+    height = np.multiply(height, 1.)  # integers may overflow
+    beta = np.multiply(beta, 1.)
+
     # convert geodetic colatitude to latitude
     alpha = np.radians(90. - beta)
 
@@ -1024,6 +1034,8 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
     e4 = e2*e2
     ep2 = (a2 - b2) / b2  # squared primed eccentricity
 
+    theta = np.multiply(theta, 1.)  # integers may overflow
+
     r = radius * np.sin(np.radians(theta))
     z = radius * np.cos(np.radians(theta))
 
@@ -1088,7 +1100,7 @@ def basevectors_gg(theta, beta):
         GEO.
 
     """
-    psi = np.radians(theta - beta)  # difference angle
+    psi = np.radians(np.multiply(theta, 1.) - beta)  # difference angle
 
     grid_shape = np.broadcast(theta, beta).shape
 
@@ -1271,8 +1283,8 @@ def basevectors_use(theta, phi):
 
     """
 
-    theta = np.array(np.radians(theta))
-    phi = np.array(np.radians(phi))
+    theta = np.array(np.radians(np.multiply(theta, 1.)))
+    phi = np.array(np.radians(np.multiply(phi, 1.)))
 
     if np.any(theta == 0.) or np.any(theta == np.pi):
         raise ValueError("Basevectors are not defined at poles.")
-- 
2.43.0

