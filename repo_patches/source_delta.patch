From f0ef636acf5c7930d60aedf3ad27e6429c7ec317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:46 +0000
Subject: [PATCH 01/24] fix: detect plateau extrema at the start of the signal
 correctly

The guard which drops a plateau starting at the first sample was off by one
(index carried over from 1-based MATLAB). Such a plateau was compared with the
*last* difference of the signal (index -1) and could be reported as an
extremum, while a genuine plateau extremum starting at the second sample was
dropped.
---
 PyEMD/EMD.py                 | 2 +-
 PyEMD/EMD_matlab.py          | 2 +-
 PyEMD/experimental/jitemd.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 7a82403..1a00d76 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -646,7 +646,7 @@ class EMD:
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
 
-            if len(debs) > 0 and debs[0] == 1:
+            if len(debs) > 0 and debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 30530e5..5e1bd5f 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -352,7 +352,7 @@ class EMD:
             dd = np.diff(np.append(np.append(0, bad), 0))
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
-            if debs[0] == 1:
+            if debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index efdc10d..3c8b4be 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -191,7 +191,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
         dd = nb_diff(np.append(np.append(0, same_values), 0))
         _left_idx = np.nonzero(dd == 1)[0]
         _right_idx = np.nonzero(dd == -1)[0]
-        if _left_idx[0] == 1:
+        if _left_idx[0] == 0:
             _left_idx = _left_idx[1:]
             _right_idx = _right_idx[1:]
 
-- 
2.43.0


From be2d5f7ef27e956a6baa4b961173167b37c3c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:56 +0000
Subject: [PATCH 02/24] fix: timeline keeps unique values for low precision
 floats

For float16 signals longer than 2049 samples consecutive integers aren't
representable, so the created timeline contained duplicates (or inf) and EMD
rejected it. Under NEP 50 the comparison of a float16 scalar with a Python int
is also done in float16, hence the overflow check never triggered.
---
 PyEMD/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyEMD/utils.py b/PyEMD/utils.py
index ed91a26..c31b93d 100644
--- a/PyEMD/utils.py
+++ b/PyEMD/utils.py
@@ -21,7 +21,7 @@ def get_timeline(range_max: int, dtype: Optional[np.dtype] = None) -> np.ndarray
 
     """
     timeline = np.arange(0, range_max, dtype=dtype)
-    if timeline[-1] != range_max - 1:
+    if not np.array_equal(timeline, np.arange(range_max)):
         inclusive_dtype = smallest_inclusive_dtype(timeline.dtype, range_max)
         timeline = np.arange(0, range_max, dtype=inclusive_dtype)
     return timeline
@@ -50,7 +50,8 @@ def smallest_inclusive_dtype(ref_dtype: np.dtype, ref_value) -> np.dtype:
     # Float path
     if np.issubdtype(ref_dtype, np.floating):
         for dtype in [np.float16, np.float32, np.float64]:
-            if ref_value < np.finfo(dtype).max:
+            # Consecutive integers are only representable up to 2^(mantissa bits + 1)
+            if ref_value <= 2 ** (np.finfo(dtype).nmant + 1):
                 return dtype
         max_val = np.finfo(np.float64).max
         raise ValueError("Requested too large integer range. Exceeds max( float64 ) == '{}.".format(max_val))
-- 
2.43.0


From 8ac5a8739962859adc6cd12932864db776c60a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:58 +0000
Subject: [PATCH 03/24] fix: get_imfs_and_trend for signals without any
 component

A zero signal has neither IMFs nor residue and accessing the last IMF raised
IndexError (also in EEMD with separate_trends).
---
 PyEMD/EMD.py | 2024 +++++++++++++++++++++++++-------------------------
 1 file changed, 1012 insertions(+), 1012 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 1a00d76..5c05428 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -1,1012 +1,1012 @@
-#!/usr/bin/python
-# coding: UTF-8
-#
-# Author:   Dawid Laszuk
-# Contact:  https://github.com/laszukdawid/PyEMD/issues
-#
-# Feel free to contact for any information.
-
-import logging
-from typing import Optional, Tuple
-
-import numpy as np
-from scipy.interpolate import interp1d
-
-from PyEMD.splines import akima, cubic, cubic_hermite, cubic_spline_3pts, pchip
-from PyEMD.utils import get_timeline, unify_types
-
-FindExtremaOutput = Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray]
-
-
-class EMD:
-    """
-    .. _EMD:
-
-    **Empirical Mode Decomposition**
-
-    Method of decomposing signal into Intrinsic Mode Functions (IMFs)
-    based on algorithm presented in Huang et al. [Huang1998]_.
-
-    Algorithm was validated with Rilling et al. [Rilling2003]_ Matlab's version from 3.2007.
-
-    Threshold which control the goodness of the decomposition:
-        * `std_thr` --- Test for the proto-IMF how variance changes between siftings.
-        * `svar_thr` -- Test for the proto-IMF how energy changes between siftings.
-        * `total_power_thr` --- Test for the whole decomp how much of energy is solved.
-        * `range_thr` --- Test for the whole decomp whether the difference is tiny.
-
-
-    References
-    ----------
-    .. [Huang1998] N. E. Huang et al., "The empirical mode decomposition and the
-        Hilbert spectrum for non-linear and non stationary time series
-        analysis", Proc. Royal Soc. London A, Vol. 454, pp. 903-995, 1998
-    .. [Rilling2003] G. Rilling, P. Flandrin and P. Goncalves, "On Empirical Mode
-        Decomposition and its algorithms", IEEE-EURASIP Workshop on
-        Nonlinear Signal and Image Processing NSIP-03, Grado (I), June 2003
-
-    Examples
-    --------
-    >>> import numpy as np
-    >>> T = np.linspace(0, 1, 100)
-    >>> S = np.sin(2*2*np.pi*T)
-    >>> emd = EMD(extrema_detection='parabol')
-    >>> IMFs = emd.emd(S)
-    >>> IMFs.shape
-    (1, 100)
-    """
-
-    logger = logging.getLogger(__name__)
-
-    def __init__(self, spline_kind: str = "cubic", nbsym: int = 2, **kwargs):
-        """Initiate *EMD* instance.
-
-        Configuration, such as threshold values, can be passed as kwargs (keyword arguments).
-
-        Parameters
-        ----------
-        FIXE : int (default: 0)
-        FIXE_H : int (default: 0)
-        MAX_ITERATION : int (default 1000)
-            Maximum number of iterations per single sifting in EMD.
-        energy_ratio_thr : float (default: 0.2)
-            Threshold value on energy ratio per IMF check.
-        std_thr float : (default 0.2)
-            Threshold value on standard deviation per IMF check.
-        svar_thr float : (default 0.001)
-            Threshold value on scaled variance per IMF check.
-        total_power_thr : float (default 0.005)
-            Threshold value on total power per EMD decomposition.
-        range_thr : float (default 0.001)
-            Threshold for amplitude range (after scaling) per EMD decomposition.
-        extrema_detection : str (default 'simple')
-            Method used to finding extrema.
-        DTYPE : np.dtype (default np.float64)
-            Data type used.
-
-        Examples
-        --------
-        >>> emd = EMD(std_thr=0.01, range_thr=0.05)
-
-        """
-        # Declare constants
-        self.energy_ratio_thr = float(kwargs.get("energy_ratio_thr", 0.2))
-        self.std_thr = float(kwargs.get("std_thr", 0.2))
-        self.svar_thr = float(kwargs.get("svar_thr", 0.001))
-        self.total_power_thr = float(kwargs.get("total_power_thr", 0.005))
-        self.range_thr = float(kwargs.get("range_thr", 0.001))
-
-        self.nbsym = int(kwargs.get("nbsym", nbsym))
-        self.scale_factor = float(kwargs.get("scale_factor", 1.0))
-
-        self.spline_kind = spline_kind
-        self.extrema_detection = kwargs.get("extrema_detection", "simple")  # simple, parabol
-        assert self.extrema_detection in (
-            "simple",
-            "parabol",
-        ), "Only 'simple' and 'parabol' values supported"
-
-        self.DTYPE = kwargs.get("DTYPE", np.float64)
-        self.FIXE = int(kwargs.get("FIXE", 0))
-        self.FIXE_H = int(kwargs.get("FIXE_H", 0))
-
-        self.MAX_ITERATION = int(kwargs.get("MAX_ITERATION", 1000))
-
-        # Instance global declaration
-        self.imfs = None  # Optional[np.ndarray]
-        self.residue = None  # Optional[np.ndarray]
-
-    def __call__(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
-        return self.emd(S, T=T, max_imf=max_imf)
-
-    def extract_max_min_spline(
-        self, T: np.ndarray, S: np.ndarray
-    ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
-        """
-        Extracts top and bottom envelopes based on the signal,
-        which are constructed based on maxima and minima, respectively.
-
-        Parameters
-        ----------
-        T : numpy array
-            Position or time array.
-        S : numpy array
-            Input data S(T).
-
-        Returns
-        -------
-        max_spline : numpy array
-            Spline spanned on S maxima.
-        min_spline : numpy array
-            Spline spanned on S minima.
-        max_extrema : numpy array
-            Points indicating local maxima.
-        min_extrema : numpy array
-            Points indicating local minima.
-        """
-
-        # Get indexes of extrema
-        ext_res = self.find_extrema(T, S)
-        max_pos, max_val = ext_res[0], ext_res[1]
-        min_pos, min_val = ext_res[2], ext_res[3]
-
-        if len(max_pos) + len(min_pos) < 3:
-            return [-1] * 4  # TODO: Fix this. Doesn't match the signature.
-
-        #########################################
-        # Extrapolation of signal (over boundaries)
-        max_extrema, min_extrema = self.prepare_points(T, S, max_pos, max_val, min_pos, min_val)
-
-        _, max_spline = self.spline_points(T, max_extrema)
-        _, min_spline = self.spline_points(T, min_extrema)
-
-        return max_spline, min_spline, max_extrema, min_extrema
-
-    def prepare_points(
-        self,
-        T: np.ndarray,
-        S: np.ndarray,
-        max_pos: np.ndarray,
-        max_val: np.ndarray,
-        min_pos: np.ndarray,
-        min_val: np.ndarray,
-    ):
-        """
-        Performs extrapolation on edges by adding extra extrema, also known
-        as mirroring signal. The number of added points depends on *nbsym*
-        variable.
-
-        Parameters
-        ----------
-        T : numpy array
-            Position or time array.
-        S : numpy array
-            Input signal.
-        max_pos : iterable
-            Sorted time positions of maxima.
-        max_val : iterable
-            Signal values at max_pos positions.
-        min_pos : iterable
-            Sorted time positions of minima.
-        min_val : iterable
-            Signal values at min_pos positions.
-
-        Returns
-        -------
-        max_extrema : numpy array (2 rows)
-            Position (1st row) and values (2nd row) of minima.
-        min_extrema : numpy array (2 rows)
-            Position (1st row) and values (2nd row) of maxima.
-        """
-        if self.extrema_detection == "parabol":
-            return self.prepare_points_parabol(T, S, max_pos, max_val, min_pos, min_val)
-        elif self.extrema_detection == "simple":
-            return self.prepare_points_simple(T, S, max_pos, max_val, min_pos, min_val)
-        else:
-            msg = "Incorrect extrema detection type. Please try: 'simple' or 'parabol'."
-            raise ValueError(msg)
-
-    def prepare_points_parabol(self, T, S, max_pos, max_val, min_pos, min_val) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Performs mirroring on signal which extrema do not necessarily
-        belong on the position array.
-
-        See :meth:`EMD.prepare_points`.
-        """
-
-        # Need at least two extrema to perform mirroring
-        max_extrema = np.zeros((2, len(max_pos)), dtype=self.DTYPE)
-        min_extrema = np.zeros((2, len(min_pos)), dtype=self.DTYPE)
-
-        max_extrema[0], min_extrema[0] = max_pos, min_pos
-        max_extrema[1], min_extrema[1] = max_val, min_val
-
-        # Local variables
-        nbsym = self.nbsym
-        end_min, end_max = len(min_pos), len(max_pos)
-
-        ####################################
-        # Left bound
-        d_pos = max_pos[0] - min_pos[0]
-        left_ext_max_type = d_pos < 0  # True -> max, else min
-
-        # Left extremum is maximum
-        if left_ext_max_type:
-            if (S[0] > min_val[0]) and (np.abs(d_pos) > (max_pos[0] - T[0])):
-                # mirror signal to first extrema
-                expand_left_max_pos = 2 * max_pos[0] - max_pos[1 : nbsym + 1]
-                expand_left_min_pos = 2 * max_pos[0] - min_pos[0:nbsym]
-                expand_left_max_val = max_val[1 : nbsym + 1]
-                expand_left_min_val = min_val[0:nbsym]
-            else:
-                # mirror signal to beginning
-                expand_left_max_pos = 2 * T[0] - max_pos[0:nbsym]
-                expand_left_min_pos = 2 * T[0] - np.append(T[0], min_pos[0 : nbsym - 1])
-                expand_left_max_val = max_val[0:nbsym]
-                expand_left_min_val = np.append(S[0], min_val[0 : nbsym - 1])
-
-        # Left extremum is minimum
-        else:
-            if (S[0] < max_val[0]) and (np.abs(d_pos) > (min_pos[0] - T[0])):
-                # mirror signal to first extrema
-                expand_left_max_pos = 2 * min_pos[0] - max_pos[0:nbsym]
-                expand_left_min_pos = 2 * min_pos[0] - min_pos[1 : nbsym + 1]
-                expand_left_max_val = max_val[0:nbsym]
-                expand_left_min_val = min_val[1 : nbsym + 1]
-            else:
-                # mirror signal to beginning
-                expand_left_max_pos = 2 * T[0] - np.append(T[0], max_pos[0 : nbsym - 1])
-                expand_left_min_pos = 2 * T[0] - min_pos[0:nbsym]
-                expand_left_max_val = np.append(S[0], max_val[0 : nbsym - 1])
-                expand_left_min_val = min_val[0:nbsym]
-
-        if not expand_left_min_pos.shape:
-            expand_left_min_pos, expand_left_min_val = min_pos, min_val
-        if not expand_left_max_pos.shape:
-            expand_left_max_pos, expand_left_max_val = max_pos, max_val
-
-        expand_left_min = np.vstack((expand_left_min_pos[::-1], expand_left_min_val[::-1]))
-        expand_left_max = np.vstack((expand_left_max_pos[::-1], expand_left_max_val[::-1]))
-
-        ####################################
-        # Right bound
-        d_pos = max_pos[-1] - min_pos[-1]
-        right_ext_max_type = d_pos > 0
-
-        # Right extremum is maximum
-        if not right_ext_max_type:
-            if (S[-1] < max_val[-1]) and (np.abs(d_pos) > (T[-1] - min_pos[-1])):
-                # mirror signal to last extrema
-                idx_max = max(0, end_max - nbsym)
-                idx_min = max(0, end_min - nbsym - 1)
-                expand_right_max_pos = 2 * min_pos[-1] - max_pos[idx_max:]
-                expand_right_min_pos = 2 * min_pos[-1] - min_pos[idx_min:-1]
-                expand_right_max_val = max_val[idx_max:]
-                expand_right_min_val = min_val[idx_min:-1]
-            else:
-                # mirror signal to end
-                idx_max = max(0, end_max - nbsym + 1)
-                idx_min = max(0, end_min - nbsym)
-                expand_right_max_pos = 2 * T[-1] - np.append(max_pos[idx_max:], T[-1])
-                expand_right_min_pos = 2 * T[-1] - min_pos[idx_min:]
-                expand_right_max_val = np.append(max_val[idx_max:], S[-1])
-                expand_right_min_val = min_val[idx_min:]
-
-        # Right extremum is minimum
-        else:
-            if (S[-1] > min_val[-1]) and len(max_pos) > 1 and (np.abs(d_pos) > (T[-1] - max_pos[-1])):
-                # mirror signal to last extremum
-                idx_max = max(0, end_max - nbsym - 1)
-                idx_min = max(0, end_min - nbsym)
-                expand_right_max_pos = 2 * max_pos[-1] - max_pos[idx_max:-1]
-                expand_right_min_pos = 2 * max_pos[-1] - min_pos[idx_min:]
-                expand_right_max_val = max_val[idx_max:-1]
-                expand_right_min_val = min_val[idx_min:]
-            else:
-                # mirror signal to end
-                idx_max = max(0, end_max - nbsym)
-                idx_min = max(0, end_min - nbsym + 1)
-                expand_right_max_pos = 2 * T[-1] - max_pos[idx_max:]
-                expand_right_min_pos = 2 * T[-1] - np.append(min_pos[idx_min:], T[-1])
-                expand_right_max_val = max_val[idx_max:]
-                expand_right_min_val = np.append(min_val[idx_min:], S[-1])
-
-        if not expand_right_min_pos.shape:
-            expand_right_min_pos, expand_right_min_val = min_pos, min_val
-        if not expand_right_max_pos.shape:
-            expand_right_max_pos, expand_right_max_val = max_pos, max_val
-
-        expand_right_min = np.vstack((expand_right_min_pos[::-1], expand_right_min_val[::-1]))
-        expand_right_max = np.vstack((expand_right_max_pos[::-1], expand_right_max_val[::-1]))
-
-        max_extrema = np.hstack((expand_left_max, max_extrema, expand_right_max))
-        min_extrema = np.hstack((expand_left_min, min_extrema, expand_right_min))
-
-        return max_extrema, min_extrema
-
-    def prepare_points_simple(
-        self,
-        T: np.ndarray,
-        S: np.ndarray,
-        max_pos: np.ndarray,
-        max_val: Optional[np.ndarray],
-        min_pos: np.ndarray,
-        min_val: Optional[np.ndarray],
-    ) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Performs mirroring on signal which extrema can be indexed on
-        the position array.
-
-        See :meth:`EMD.prepare_points`.
-        """
-
-        # Find indexes of pass
-        ind_min = min_pos.astype(int)
-        ind_max = max_pos.astype(int)
-
-        # Local variables
-        nbsym = self.nbsym
-        end_min, end_max = len(min_pos), len(max_pos)
-
-        ####################################
-        # Left bound - mirror nbsym points to the left
-        if ind_max[0] < ind_min[0]:
-            if S[0] > S[ind_min[0]]:
-                lmax = ind_max[1 : min(end_max, nbsym + 1)][::-1]
-                lmin = ind_min[0 : min(end_min, nbsym + 0)][::-1]
-                lsym = ind_max[0]
-            else:
-                lmax = ind_max[0 : min(end_max, nbsym)][::-1]
-                lmin = np.append(ind_min[0 : min(end_min, nbsym - 1)][::-1], 0)
-                lsym = 0
-        else:
-            if S[0] < S[ind_max[0]]:
-                lmax = ind_max[0 : min(end_max, nbsym + 0)][::-1]
-                lmin = ind_min[1 : min(end_min, nbsym + 1)][::-1]
-                lsym = ind_min[0]
-            else:
-                lmax = np.append(ind_max[0 : min(end_max, nbsym - 1)][::-1], 0)
-                lmin = ind_min[0 : min(end_min, nbsym)][::-1]
-                lsym = 0
-
-        ####################################
-        # Right bound - mirror nbsym points to the right
-        if ind_max[-1] < ind_min[-1]:
-            if S[-1] < S[ind_max[-1]]:
-                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
-                rmin = ind_min[max(end_min - nbsym - 1, 0) : -1][::-1]
-                rsym = ind_min[-1]
-            else:
-                rmax = np.append(ind_max[max(end_max - nbsym + 1, 0) :], len(S) - 1)[::-1]
-                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
-                rsym = len(S) - 1
-        else:
-            if S[-1] > S[ind_min[-1]]:
-                rmax = ind_max[max(end_max - nbsym - 1, 0) : -1][::-1]
-                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
-                rsym = ind_max[-1]
-            else:
-                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
-                rmin = np.append(ind_min[max(end_min - nbsym + 1, 0) :], len(S) - 1)[::-1]
-                rsym = len(S) - 1
-
-        # In case any array missing
-        if not lmin.size:
-            lmin = ind_min
-        if not rmin.size:
-            rmin = ind_min
-        if not lmax.size:
-            lmax = ind_max
-        if not rmax.size:
-            rmax = ind_max
-
-        # Mirror points
-        tlmin = 2 * T[lsym] - T[lmin]
-        tlmax = 2 * T[lsym] - T[lmax]
-        trmin = 2 * T[rsym] - T[rmin]
-        trmax = 2 * T[rsym] - T[rmax]
-
-        # If mirrored points are not outside passed time range.
-        if tlmin[0] > T[0] or tlmax[0] > T[0]:
-            if lsym == ind_max[0]:
-                lmax = ind_max[0 : min(end_max, nbsym)][::-1]
-            else:
-                lmin = ind_min[0 : min(end_min, nbsym)][::-1]
-
-            if lsym == 0:
-                raise Exception("Left edge BUG")
-
-            lsym = 0
-            tlmin = 2 * T[lsym] - T[lmin]
-            tlmax = 2 * T[lsym] - T[lmax]
-
-        if trmin[-1] < T[-1] or trmax[-1] < T[-1]:
-            if rsym == ind_max[-1]:
-                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
-            else:
-                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
-
-            if rsym == len(S) - 1:
-                raise Exception("Right edge BUG")
-
-            rsym = len(S) - 1
-            trmin = 2 * T[rsym] - T[rmin]
-            trmax = 2 * T[rsym] - T[rmax]
-
-        zlmax = S[lmax]
-        zlmin = S[lmin]
-        zrmax = S[rmax]
-        zrmin = S[rmin]
-
-        tmin = np.concatenate((tlmin, T[ind_min], trmin))
-        tmax = np.concatenate((tlmax, T[ind_max], trmax))
-        zmin = np.concatenate((zlmin, S[ind_min], zrmin))
-        zmax = np.concatenate((zlmax, S[ind_max], zrmax))
-
-        max_extrema = np.array([tmax, zmax])
-        min_extrema = np.array([tmin, zmin])
-
-        # Make double sure, that each extremum is significant
-        max_dup_idx = np.where(max_extrema[0, 1:] == max_extrema[0, :-1])
-        max_extrema = np.delete(max_extrema, max_dup_idx, axis=1)
-        min_dup_idx = np.where(min_extrema[0, 1:] == min_extrema[0, :-1])
-        min_extrema = np.delete(min_extrema, min_dup_idx, axis=1)
-
-        return max_extrema, min_extrema
-
-    def spline_points(self, T: np.ndarray, extrema: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Constructs spline over given points.
-
-        Parameters
-        ----------
-        T : numpy array
-            Position or time array.
-        extrema : numpy array
-            Position (1st row) and values (2nd row) of points.
-
-        Returns
-        -------
-        T : numpy array
-            Position array (same as input).
-        spline : numpy array
-            Spline array over given positions T.
-        """
-
-        kind = self.spline_kind.lower()
-        t = T[(T >= extrema[0, 0]) & (T <= extrema[0, -1])]
-
-        if kind == "akima":
-            return t, akima(extrema[0], extrema[1], t)
-
-        elif kind == "cubic":
-            if extrema.shape[1] > 3:
-                return t, cubic(extrema[0], extrema[1], t)
-            else:
-                return cubic_spline_3pts(extrema[0], extrema[1], t)
-
-        elif kind == "pchip":
-            return t, pchip(extrema[0], extrema[1], t)
-
-        elif kind == "cubic_hermite":
-            return t, cubic_hermite(extrema[0], extrema[1], t)
-
-        elif kind in ["slinear", "quadratic", "linear"]:
-            return T, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)
-
-        else:
-            raise ValueError("No such interpolation method!")
-
-    @staticmethod
-    def _not_duplicate(S: np.ndarray) -> np.ndarray:
-        """
-        Returns indices for not repeating values, where there is no extremum.
-
-        Example
-        -------
-        >>> S = [0, 1, 1, 1, 2, 3]
-        >>> idx = self._not_duplicate(S)
-        [0, 1, 3, 4, 5]
-        """
-        dup = (S[1:-1] == S[0:-2]) & (S[1:-1] == S[2:])
-        not_dup_idx = np.arange(1, len(S) - 1)[~dup]
-
-        idx = np.empty(len(not_dup_idx) + 2, dtype=np.int64)
-        idx[0] = 0
-        idx[-1] = len(S) - 1
-        idx[1:-1] = not_dup_idx
-
-        return idx
-
-    def find_extrema(self, T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
-        """
-        Returns extrema (minima and maxima) for given signal S.
-        Detection and definition of the extrema depends on
-        ``extrema_detection`` variable, set on initiation of EMD.
-
-        Parameters
-        ----------
-        T : numpy array
-            Position or time array.
-        S : numpy array
-            Input data S(T).
-
-        Returns
-        -------
-        local_max_pos : numpy array
-            Position of local maxima.
-        local_max_val : numpy array
-            Values of local maxima.
-        local_min_pos : numpy array
-            Position of local minima.
-        local_min_val : numpy array
-            Values of local minima.
-        """
-        if self.extrema_detection == "parabol":
-            return self._find_extrema_parabol(T, S)
-        elif self.extrema_detection == "simple":
-            return self._find_extrema_simple(T, S)
-        else:
-            raise ValueError("Incorrect extrema detection type. Please try: 'simple' or 'parabol'.")
-
-    def _find_extrema_parabol(self, T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
-        """
-        Performs parabol estimation of extremum, i.e. an extremum is a peak
-        of parabol spanned on 3 consecutive points, where the mid point is
-        the closest.
-
-        See :meth:`EMD.find_extrema()`.
-        """
-        # Finds indexes of zero-crossings
-        S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
-        if np.any(S == 0):
-            indz = np.nonzero(S == 0)[0]
-            if np.any(np.diff(indz) == 1):
-                zer = S == 0
-                dz = np.diff(np.append(np.append(0, zer), 0))
-                debz = np.nonzero(dz == 1)[0]
-                finz = np.nonzero(dz == -1)[0] - 1
-                indz = np.round((debz + finz) / 2.0)
-
-            indzer = np.sort(np.append(indzer, indz))
-
-        dt = float(T[1] - T[0])
-        scale = 2.0 * dt * dt
-
-        idx = self._not_duplicate(S)
-        T = T[idx]
-        S = S[idx]
-
-        # p - previous
-        # 0 - current
-        # n - next
-        Tp, T0, Tn = T[:-2], T[1:-1], T[2:]
-        Sp, S0, Sn = S[:-2], S[1:-1], S[2:]
-        # a = Sn + Sp - 2*S0
-        # b = 2*(Tn+Tp)*S0 - ((Tn+T0)*Sp+(T0+Tp)*Sn)
-        # c = Sp*T0*Tn -2*Tp*S0*Tn + Tp*T0*Sn
-        TnTp, T0Tn, TpT0 = Tn - Tp, T0 - Tn, Tp - T0
-        scale = Tp * Tn * Tn + Tp * Tp * T0 + T0 * T0 * Tn - Tp * Tp * Tn - Tp * T0 * T0 - T0 * Tn * Tn
-
-        a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
-        b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
-        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn
-
-        a = a / scale
-        b = b / scale
-        c = c / scale
-        a[a == 0] = 1e-14
-        tVertex = -0.5 * b / a
-        idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
-
-        a, b, c = a[idx], b[idx], c[idx]
-        tVertex = tVertex[idx]
-        sVertex = a * tVertex * tVertex + b * tVertex + c
-
-        local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
-        local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
-
-        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer
-
-    @staticmethod
-    def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
-        """
-        Performs extrema detection, where extremum is defined as a point,
-        that is above/below its neighbours.
-
-        See :meth:`EMD.find_extrema`.
-        """
-
-        # Finds indexes of zero-crossings
-        S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
-        if np.any(S == 0):
-            indz = np.nonzero(S == 0)[0]
-            if np.any(np.diff(indz) == 1):
-                zer = S == 0
-                dz = np.diff(np.concatenate(([0], zer, [0])))
-                debz = np.nonzero(dz == 1)[0]
-                finz = np.nonzero(dz == -1)[0] - 1
-                indz = np.round((debz + finz) / 2.0)
-
-            indzer = np.sort(np.append(indzer, indz))
-
-        # Finds local extrema
-        d = np.diff(S)
-        d1, d2 = d[:-1], d[1:]
-        sign_change = d1 * d2 < 0
-        indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
-        indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1
-
-        # When two or more points have the same value (flat plateaus)
-        if np.any(d == 0):
-            bad = d == 0
-            dd = np.diff(np.concatenate(([0], bad, [0])))
-            debs = np.nonzero(dd == 1)[0]
-            fins = np.nonzero(dd == -1)[0]
-
-            if len(debs) > 0 and debs[0] == 0:
-                if len(debs) > 1:
-                    debs, fins = debs[1:], fins[1:]
-                else:
-                    debs, fins = (
-                        np.array([], dtype=np.intp),
-                        np.array([], dtype=np.intp),
-                    )
-
-            if len(debs) > 0 and fins[-1] == len(S) - 1:
-                if len(debs) > 1:
-                    debs, fins = debs[:-1], fins[:-1]
-                else:
-                    debs, fins = (
-                        np.array([], dtype=np.intp),
-                        np.array([], dtype=np.intp),
-                    )
-
-            if len(debs) > 0:
-                d_before = d[debs - 1]
-                d_after = d[fins]
-                midpoints = np.round((fins + debs) / 2.0).astype(np.intp)
-
-                # Maxima: rising before plateau, falling after
-                max_mask = (d_before > 0) & (d_after < 0)
-                # Minima: falling before plateau, rising after
-                min_mask = (d_before < 0) & (d_after > 0)
-
-                if np.any(max_mask):
-                    indmax = np.sort(np.concatenate([indmax, midpoints[max_mask]]))
-                if np.any(min_mask):
-                    indmin = np.sort(np.concatenate([indmin, midpoints[min_mask]]))
-
-        local_max_pos = T[indmax]
-        local_max_val = S[indmax]
-        local_min_pos = T[indmin]
-        local_min_val = S[indmin]
-
-        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer
-
-    def end_condition(self, S: np.ndarray, IMF: np.ndarray) -> bool:
-        """Tests for end condition of whole EMD. The procedure will stop if:
-
-        * Absolute amplitude (max - min) is below *range_thr* threshold, or
-        * Metric L1 (mean absolute difference) is below *total_power_thr* threshold.
-
-        Parameters
-        ----------
-        S : numpy array
-            Original signal on which EMD was performed.
-        IMF : numpy 2D array
-            Set of IMFs where each row is IMF. Their order is not important.
-
-        Returns
-        -------
-        end : bool
-            Whether sifting is finished.
-        """
-        # When to stop EMD
-        tmp = S - np.sum(IMF, axis=0)
-
-        if np.max(tmp) - np.min(tmp) < self.range_thr:
-            self.logger.debug("FINISHED -- RANGE")
-            return True
-
-        if np.sum(np.abs(tmp)) < self.total_power_thr:
-            self.logger.debug("FINISHED -- SUM POWER")
-            return True
-
-        return False
-
-    def check_imf(
-        self,
-        imf_new: np.ndarray,
-        imf_old: np.ndarray,
-        eMax: np.ndarray,
-        eMin: np.ndarray,
-    ) -> bool:
-        """
-        Huang criteria for **IMF** (similar to Cauchy convergence test).
-        Signal is an IMF if consecutive siftings do not affect signal
-        in a significant manner.
-        """
-        # local max are >0 and local min are <0
-        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):
-            return False
-
-        # Convergence
-        if np.sum(imf_new**2) < 1e-10:
-            return False
-
-        # Precompute values
-        imf_diff = imf_new - imf_old
-        imf_diff_sqrd_sum = np.sum(imf_diff * imf_diff)
-
-        # Scaled variance test
-        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old))
-        if svar < self.svar_thr:
-            self.logger.debug("Scaled variance -- PASSED")
-            return True
-
-        # Standard deviation test
-        std = np.sum((imf_diff / imf_new) ** 2)
-        if std < self.std_thr:
-            self.logger.debug("Standard deviation -- PASSED")
-            return True
-
-        energy_ratio = imf_diff_sqrd_sum / np.sum(imf_old * imf_old)
-        if energy_ratio < self.energy_ratio_thr:
-            self.logger.debug("Energy ratio -- PASSED")
-            return True
-
-        return False
-
-    @staticmethod
-    def _normalize_time(t: np.ndarray) -> np.ndarray:
-        """
-        Normalize time array so that it doesn't explode on tiny values.
-        Returned array starts with 0 and the smallest increase is by 1.
-        """
-        d = np.diff(t)
-        assert np.all(d != 0), "All time domain values needs to be unique"
-        return (t - t[0]) / np.min(d)
-
-    def emd(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
-        """
-        Performs Empirical Mode Decomposition on signal S.
-        The decomposition is limited to *max_imf* imfs.
-        Returns IMF functions and residue in a single numpy array format.
-
-        Parameters
-        ----------
-        S : numpy array,
-            Input signal.
-        T : numpy array, (default: None)
-            Position or time array. If None is passed or self.extrema_detection == "simple",
-            then numpy range is created.
-        max_imf : int, (default: -1)
-            IMF number to which decomposition should be performed.
-            Negative value means *all*.
-
-        Returns
-        -------
-        IMFs and residue : numpy array
-            A numpy array which cointains both the IMFs and residual, if any, appended as
-            the last slice.
-        """
-        if T is not None and len(S) != len(T):
-            raise ValueError("Time series have different sizes: len(S) -> {} != {} <- len(T)".format(len(S), len(T)))
-
-        if T is None or self.extrema_detection == "simple":
-            T = get_timeline(len(S), S.dtype)
-
-        # Normalize T so that it doesn't explode
-        T = self._normalize_time(T)
-
-        # Make sure same types are dealt
-        S, T = unify_types(S, T)
-        self.DTYPE = S.dtype
-        N = len(S)
-
-        residue = S.astype(self.DTYPE)
-        imf = np.zeros(len(S), dtype=self.DTYPE)
-        imf_old = np.nan
-
-        if S.shape != T.shape:
-            raise ValueError("Position or time array should be the same size as signal.")
-
-        # Create arrays
-        imfNo = 0
-        extNo = -1
-        IMF = np.empty((imfNo, N))  # Numpy container for IMF
-        finished = False
-
-        while not finished:
-            self.logger.debug("IMF -- %s", imfNo)
-
-            residue[:] = S - np.sum(IMF[:imfNo], axis=0)
-            imf = residue.copy()
-            mean = np.zeros(len(S), dtype=self.DTYPE)
-
-            # Counters
-            n = 0  # All iterations for current imf.
-            n_h = 0  # counts when |#zero - #ext| <=1
-
-            while True:
-                n += 1
-                if n >= self.MAX_ITERATION:
-                    self.logger.info("Max iterations reached for IMF. Continuing with another IMF.")
-                    break
-
-                ext_res = self.find_extrema(T, imf)
-                max_pos, min_pos, indzer = ext_res[0], ext_res[2], ext_res[4]
-                extNo = len(min_pos) + len(max_pos)
-                nzm = len(indzer)
-
-                if extNo > 2:
-                    max_env, min_env, eMax, eMin = self.extract_max_min_spline(T, imf)
-                    mean[:] = 0.5 * (max_env + min_env)
-
-                    imf_old = imf.copy()
-                    imf[:] = imf - mean
-
-                    # Fix number of iterations
-                    if self.FIXE:
-                        if n >= self.FIXE:
-                            break
-
-                    # Fix number of iterations after number of zero-crossings
-                    # and extrema differ at most by one.
-                    elif self.FIXE_H:
-                        tmp_residue = self.find_extrema(T, imf)
-                        max_pos, min_pos, ind_zer = (
-                            tmp_residue[0],
-                            tmp_residue[2],
-                            tmp_residue[4],
-                        )
-                        extNo = len(max_pos) + len(min_pos)
-                        nzm = len(ind_zer)
-
-                        if n == 1:
-                            continue
-
-                        # If proto-IMF add one, or reset counter otherwise
-                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0
-
-                        # STOP
-                        if n_h >= self.FIXE_H:
-                            break
-
-                    # Stops after default stopping criteria are met
-                    else:
-                        ext_res = self.find_extrema(T, imf)
-                        max_pos, _, min_pos, _, ind_zer = ext_res
-                        extNo = len(max_pos) + len(min_pos)
-                        nzm = len(ind_zer)
-
-                        if imf_old is np.nan:
-                            continue
-
-                        f1 = self.check_imf(imf, imf_old, eMax, eMin)
-                        f2 = abs(extNo - nzm) < 2
-
-                        # STOP
-                        if f1 and f2:
-                            break
-
-                else:  # Less than 2 ext, i.e. trend
-                    finished = True
-                    break
-            # END OF IMF SIFTING
-
-            IMF = np.vstack((IMF, imf.copy()))
-            imfNo += 1
-
-            if self.end_condition(S, IMF) or imfNo == max_imf:
-                finished = True
-                break
-
-        # If the last sifting had 2 or less extrema then that's a trend (residue)
-        if extNo <= 2:
-            IMF = IMF[:-1]
-
-        # Saving imfs and residue for external references
-        self.imfs = IMF.copy()
-        self.residue = S - np.sum(self.imfs, axis=0)
-
-        # If residue isn't 0 then add it to the output
-        if not np.allclose(self.residue, 0):
-            IMF = np.vstack((IMF, self.residue))
-
-        return IMF
-
-    def get_imfs_and_residue(self) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Provides access to separated imfs and residue from recently analysed signal.
-
-        Returns
-        -------
-        imfs : np.ndarray
-            Obtained IMFs
-        residue : np.ndarray
-            Residue.
-
-        """
-        if self.imfs is None or self.residue is None:
-            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
-        return self.imfs, self.residue
-
-    def get_imfs_and_trend(self) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Provides access to separated imfs and trend from recently analysed signal.
-        Note that this may differ from the `get_imfs_and_residue` as the trend isn't
-        necessarily the residue. Residue is a point-wise difference between input signal
-        and all obtained components, whereas trend is the slowest component (can be zero).
-
-        Returns
-        -------
-        imfs : np.ndarray
-            Obtained IMFs
-        trend : np.ndarray
-            The main trend.
-
-        """
-        if self.imfs is None or self.residue is None:
-            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
-
-        imfs, residue = self.get_imfs_and_residue()
-        if np.allclose(residue, 0):
-            return imfs[:-1].copy(), imfs[-1].copy()
-        else:
-            return imfs, residue
-
-
-###################################################
-
-
-if __name__ == "__main__":
-    import pylab as plt
-
-    # Logging options
-    logging.basicConfig(level=logging.DEBUG)
-
-    # EMD options
-    max_imf = -1
-    DTYPE = np.float64
-
-    # Signal options
-    N = 400
-    tMin, tMax = 0, 2 * np.pi
-    T = np.linspace(tMin, tMax, N, dtype=DTYPE)
-
-    S = np.sin(20 * T * (1 + 0.2 * T)) + T**2 + np.sin(13 * T)
-    S = S.astype(DTYPE)
-    print("Input S.dtype: " + str(S.dtype))
-
-    # Prepare and run EMD
-    emd = EMD()
-    emd.FIXE_H = 5
-    emd.nbsym = 2
-    emd.spline_kind = "cubic"
-    emd.DTYPE = DTYPE
-
-    imfs = emd.emd(S, T, max_imf)
-    imfNo = imfs.shape[0]
-
-    # Plot results
-    c = 1
-    r = np.ceil((imfNo + 1) / c)
-
-    plt.ioff()
-    plt.subplot(r, c, 1)
-    plt.plot(T, S, "r")
-    plt.xlim((tMin, tMax))
-    plt.title("Original signal")
-
-    for num in range(imfNo):
-        plt.subplot(r, c, num + 2)
-        plt.plot(T, imfs[num], "g")
-        plt.xlim((tMin, tMax))
-        plt.ylabel("Imf " + str(num + 1))
-
-    plt.tight_layout()
-    plt.show()
+#!/usr/bin/python
+# coding: UTF-8
+#
+# Author:   Dawid Laszuk
+# Contact:  https://github.com/laszukdawid/PyEMD/issues
+#
+# Feel free to contact for any information.
+
+import logging
+from typing import Optional, Tuple
+
+import numpy as np
+from scipy.interpolate import interp1d
+
+from PyEMD.splines import akima, cubic, cubic_hermite, cubic_spline_3pts, pchip
+from PyEMD.utils import get_timeline, unify_types
+
+FindExtremaOutput = Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray]
+
+
+class EMD:
+    """
+    .. _EMD:
+
+    **Empirical Mode Decomposition**
+
+    Method of decomposing signal into Intrinsic Mode Functions (IMFs)
+    based on algorithm presented in Huang et al. [Huang1998]_.
+
+    Algorithm was validated with Rilling et al. [Rilling2003]_ Matlab's version from 3.2007.
+
+    Threshold which control the goodness of the decomposition:
+        * `std_thr` --- Test for the proto-IMF how variance changes between siftings.
+        * `svar_thr` -- Test for the proto-IMF how energy changes between siftings.
+        * `total_power_thr` --- Test for the whole decomp how much of energy is solved.
+        * `range_thr` --- Test for the whole decomp whether the difference is tiny.
+
+
+    References
+    ----------
+    .. [Huang1998] N. E. Huang et al., "The empirical mode decomposition and the
+        Hilbert spectrum for non-linear and non stationary time series
+        analysis", Proc. Royal Soc. London A, Vol. 454, pp. 903-995, 1998
+    .. [Rilling2003] G. Rilling, P. Flandrin and P. Goncalves, "On Empirical Mode
+        Decomposition and its algorithms", IEEE-EURASIP Workshop on
+        Nonlinear Signal and Image Processing NSIP-03, Grado (I), June 2003
+
+    Examples
+    --------
+    >>> import numpy as np
+    >>> T = np.linspace(0, 1, 100)
+    >>> S = np.sin(2*2*np.pi*T)
+    >>> emd = EMD(extrema_detection='parabol')
+    >>> IMFs = emd.emd(S)
+    >>> IMFs.shape
+    (1, 100)
+    """
+
+    logger = logging.getLogger(__name__)
+
+    def __init__(self, spline_kind: str = "cubic", nbsym: int = 2, **kwargs):
+        """Initiate *EMD* instance.
+
+        Configuration, such as threshold values, can be passed as kwargs (keyword arguments).
+
+        Parameters
+        ----------
+        FIXE : int (default: 0)
+        FIXE_H : int (default: 0)
+        MAX_ITERATION : int (default 1000)
+            Maximum number of iterations per single sifting in EMD.
+        energy_ratio_thr : float (default: 0.2)
+            Threshold value on energy ratio per IMF check.
+        std_thr float : (default 0.2)
+            Threshold value on standard deviation per IMF check.
+        svar_thr float : (default 0.001)
+            Threshold value on scaled variance per IMF check.
+        total_power_thr : float (default 0.005)
+            Threshold value on total power per EMD decomposition.
+        range_thr : float (default 0.001)
+            Threshold for amplitude range (after scaling) per EMD decomposition.
+        extrema_detection : str (default 'simple')
+            Method used to finding extrema.
+        DTYPE : np.dtype (default np.float64)
+            Data type used.
+
+        Examples
+        --------
+        >>> emd = EMD(std_thr=0.01, range_thr=0.05)
+
+        """
+        # Declare constants
+        self.energy_ratio_thr = float(kwargs.get("energy_ratio_thr", 0.2))
+        self.std_thr = float(kwargs.get("std_thr", 0.2))
+        self.svar_thr = float(kwargs.get("svar_thr", 0.001))
+        self.total_power_thr = float(kwargs.get("total_power_thr", 0.005))
+        self.range_thr = float(kwargs.get("range_thr", 0.001))
+
+        self.nbsym = int(kwargs.get("nbsym", nbsym))
+        self.scale_factor = float(kwargs.get("scale_factor", 1.0))
+
+        self.spline_kind = spline_kind
+        self.extrema_detection = kwargs.get("extrema_detection", "simple")  # simple, parabol
+        assert self.extrema_detection in (
+            "simple",
+            "parabol",
+        ), "Only 'simple' and 'parabol' values supported"
+
+        self.DTYPE = kwargs.get("DTYPE", np.float64)
+        self.FIXE = int(kwargs.get("FIXE", 0))
+        self.FIXE_H = int(kwargs.get("FIXE_H", 0))
+
+        self.MAX_ITERATION = int(kwargs.get("MAX_ITERATION", 1000))
+
+        # Instance global declaration
+        self.imfs = None  # Optional[np.ndarray]
+        self.residue = None  # Optional[np.ndarray]
+
+    def __call__(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
+        return self.emd(S, T=T, max_imf=max_imf)
+
+    def extract_max_min_spline(
+        self, T: np.ndarray, S: np.ndarray
+    ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
+        """
+        Extracts top and bottom envelopes based on the signal,
+        which are constructed based on maxima and minima, respectively.
+
+        Parameters
+        ----------
+        T : numpy array
+            Position or time array.
+        S : numpy array
+            Input data S(T).
+
+        Returns
+        -------
+        max_spline : numpy array
+            Spline spanned on S maxima.
+        min_spline : numpy array
+            Spline spanned on S minima.
+        max_extrema : numpy array
+            Points indicating local maxima.
+        min_extrema : numpy array
+            Points indicating local minima.
+        """
+
+        # Get indexes of extrema
+        ext_res = self.find_extrema(T, S)
+        max_pos, max_val = ext_res[0], ext_res[1]
+        min_pos, min_val = ext_res[2], ext_res[3]
+
+        if len(max_pos) + len(min_pos) < 3:
+            return [-1] * 4  # TODO: Fix this. Doesn't match the signature.
+
+        #########################################
+        # Extrapolation of signal (over boundaries)
+        max_extrema, min_extrema = self.prepare_points(T, S, max_pos, max_val, min_pos, min_val)
+
+        _, max_spline = self.spline_points(T, max_extrema)
+        _, min_spline = self.spline_points(T, min_extrema)
+
+        return max_spline, min_spline, max_extrema, min_extrema
+
+    def prepare_points(
+        self,
+        T: np.ndarray,
+        S: np.ndarray,
+        max_pos: np.ndarray,
+        max_val: np.ndarray,
+        min_pos: np.ndarray,
+        min_val: np.ndarray,
+    ):
+        """
+        Performs extrapolation on edges by adding extra extrema, also known
+        as mirroring signal. The number of added points depends on *nbsym*
+        variable.
+
+        Parameters
+        ----------
+        T : numpy array
+            Position or time array.
+        S : numpy array
+            Input signal.
+        max_pos : iterable
+            Sorted time positions of maxima.
+        max_val : iterable
+            Signal values at max_pos positions.
+        min_pos : iterable
+            Sorted time positions of minima.
+        min_val : iterable
+            Signal values at min_pos positions.
+
+        Returns
+        -------
+        max_extrema : numpy array (2 rows)
+            Position (1st row) and values (2nd row) of minima.
+        min_extrema : numpy array (2 rows)
+            Position (1st row) and values (2nd row) of maxima.
+        """
+        if self.extrema_detection == "parabol":
+            return self.prepare_points_parabol(T, S, max_pos, max_val, min_pos, min_val)
+        elif self.extrema_detection == "simple":
+            return self.prepare_points_simple(T, S, max_pos, max_val, min_pos, min_val)
+        else:
+            msg = "Incorrect extrema detection type. Please try: 'simple' or 'parabol'."
+            raise ValueError(msg)
+
+    def prepare_points_parabol(self, T, S, max_pos, max_val, min_pos, min_val) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Performs mirroring on signal which extrema do not necessarily
+        belong on the position array.
+
+        See :meth:`EMD.prepare_points`.
+        """
+
+        # Need at least two extrema to perform mirroring
+        max_extrema = np.zeros((2, len(max_pos)), dtype=self.DTYPE)
+        min_extrema = np.zeros((2, len(min_pos)), dtype=self.DTYPE)
+
+        max_extrema[0], min_extrema[0] = max_pos, min_pos
+        max_extrema[1], min_extrema[1] = max_val, min_val
+
+        # Local variables
+        nbsym = self.nbsym
+        end_min, end_max = len(min_pos), len(max_pos)
+
+        ####################################
+        # Left bound
+        d_pos = max_pos[0] - min_pos[0]
+        left_ext_max_type = d_pos < 0  # True -> max, else min
+
+        # Left extremum is maximum
+        if left_ext_max_type:
+            if (S[0] > min_val[0]) and (np.abs(d_pos) > (max_pos[0] - T[0])):
+                # mirror signal to first extrema
+                expand_left_max_pos = 2 * max_pos[0] - max_pos[1 : nbsym + 1]
+                expand_left_min_pos = 2 * max_pos[0] - min_pos[0:nbsym]
+                expand_left_max_val = max_val[1 : nbsym + 1]
+                expand_left_min_val = min_val[0:nbsym]
+            else:
+                # mirror signal to beginning
+                expand_left_max_pos = 2 * T[0] - max_pos[0:nbsym]
+                expand_left_min_pos = 2 * T[0] - np.append(T[0], min_pos[0 : nbsym - 1])
+                expand_left_max_val = max_val[0:nbsym]
+                expand_left_min_val = np.append(S[0], min_val[0 : nbsym - 1])
+
+        # Left extremum is minimum
+        else:
+            if (S[0] < max_val[0]) and (np.abs(d_pos) > (min_pos[0] - T[0])):
+                # mirror signal to first extrema
+                expand_left_max_pos = 2 * min_pos[0] - max_pos[0:nbsym]
+                expand_left_min_pos = 2 * min_pos[0] - min_pos[1 : nbsym + 1]
+                expand_left_max_val = max_val[0:nbsym]
+                expand_left_min_val = min_val[1 : nbsym + 1]
+            else:
+                # mirror signal to beginning
+                expand_left_max_pos = 2 * T[0] - np.append(T[0], max_pos[0 : nbsym - 1])
+                expand_left_min_pos = 2 * T[0] - min_pos[0:nbsym]
+                expand_left_max_val = np.append(S[0], max_val[0 : nbsym - 1])
+                expand_left_min_val = min_val[0:nbsym]
+
+        if not expand_left_min_pos.shape:
+            expand_left_min_pos, expand_left_min_val = min_pos, min_val
+        if not expand_left_max_pos.shape:
+            expand_left_max_pos, expand_left_max_val = max_pos, max_val
+
+        expand_left_min = np.vstack((expand_left_min_pos[::-1], expand_left_min_val[::-1]))
+        expand_left_max = np.vstack((expand_left_max_pos[::-1], expand_left_max_val[::-1]))
+
+        ####################################
+        # Right bound
+        d_pos = max_pos[-1] - min_pos[-1]
+        right_ext_max_type = d_pos > 0
+
+        # Right extremum is maximum
+        if not right_ext_max_type:
+            if (S[-1] < max_val[-1]) and (np.abs(d_pos) > (T[-1] - min_pos[-1])):
+                # mirror signal to last extrema
+                idx_max = max(0, end_max - nbsym)
+                idx_min = max(0, end_min - nbsym - 1)
+                expand_right_max_pos = 2 * min_pos[-1] - max_pos[idx_max:]
+                expand_right_min_pos = 2 * min_pos[-1] - min_pos[idx_min:-1]
+                expand_right_max_val = max_val[idx_max:]
+                expand_right_min_val = min_val[idx_min:-1]
+            else:
+                # mirror signal to end
+                idx_max = max(0, end_max - nbsym + 1)
+                idx_min = max(0, end_min - nbsym)
+                expand_right_max_pos = 2 * T[-1] - np.append(max_pos[idx_max:], T[-1])
+                expand_right_min_pos = 2 * T[-1] - min_pos[idx_min:]
+                expand_right_max_val = np.append(max_val[idx_max:], S[-1])
+                expand_right_min_val = min_val[idx_min:]
+
+        # Right extremum is minimum
+        else:
+            if (S[-1] > min_val[-1]) and len(max_pos) > 1 and (np.abs(d_pos) > (T[-1] - max_pos[-1])):
+                # mirror signal to last extremum
+                idx_max = max(0, end_max - nbsym - 1)
+                idx_min = max(0, end_min - nbsym)
+                expand_right_max_pos = 2 * max_pos[-1] - max_pos[idx_max:-1]
+                expand_right_min_pos = 2 * max_pos[-1] - min_pos[idx_min:]
+                expand_right_max_val = max_val[idx_max:-1]
+                expand_right_min_val = min_val[idx_min:]
+            else:
+                # mirror signal to end
+                idx_max = max(0, end_max - nbsym)
+                idx_min = max(0, end_min - nbsym + 1)
+                expand_right_max_pos = 2 * T[-1] - max_pos[idx_max:]
+                expand_right_min_pos = 2 * T[-1] - np.append(min_pos[idx_min:], T[-1])
+                expand_right_max_val = max_val[idx_max:]
+                expand_right_min_val = np.append(min_val[idx_min:], S[-1])
+
+        if not expand_right_min_pos.shape:
+            expand_right_min_pos, expand_right_min_val = min_pos, min_val
+        if not expand_right_max_pos.shape:
+            expand_right_max_pos, expand_right_max_val = max_pos, max_val
+
+        expand_right_min = np.vstack((expand_right_min_pos[::-1], expand_right_min_val[::-1]))
+        expand_right_max = np.vstack((expand_right_max_pos[::-1], expand_right_max_val[::-1]))
+
+        max_extrema = np.hstack((expand_left_max, max_extrema, expand_right_max))
+        min_extrema = np.hstack((expand_left_min, min_extrema, expand_right_min))
+
+        return max_extrema, min_extrema
+
+    def prepare_points_simple(
+        self,
+        T: np.ndarray,
+        S: np.ndarray,
+        max_pos: np.ndarray,
+        max_val: Optional[np.ndarray],
+        min_pos: np.ndarray,
+        min_val: Optional[np.ndarray],
+    ) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Performs mirroring on signal which extrema can be indexed on
+        the position array.
+
+        See :meth:`EMD.prepare_points`.
+        """
+
+        # Find indexes of pass
+        ind_min = min_pos.astype(int)
+        ind_max = max_pos.astype(int)
+
+        # Local variables
+        nbsym = self.nbsym
+        end_min, end_max = len(min_pos), len(max_pos)
+
+        ####################################
+        # Left bound - mirror nbsym points to the left
+        if ind_max[0] < ind_min[0]:
+            if S[0] > S[ind_min[0]]:
+                lmax = ind_max[1 : min(end_max, nbsym + 1)][::-1]
+                lmin = ind_min[0 : min(end_min, nbsym + 0)][::-1]
+                lsym = ind_max[0]
+            else:
+                lmax = ind_max[0 : min(end_max, nbsym)][::-1]
+                lmin = np.append(ind_min[0 : min(end_min, nbsym - 1)][::-1], 0)
+                lsym = 0
+        else:
+            if S[0] < S[ind_max[0]]:
+                lmax = ind_max[0 : min(end_max, nbsym + 0)][::-1]
+                lmin = ind_min[1 : min(end_min, nbsym + 1)][::-1]
+                lsym = ind_min[0]
+            else:
+                lmax = np.append(ind_max[0 : min(end_max, nbsym - 1)][::-1], 0)
+                lmin = ind_min[0 : min(end_min, nbsym)][::-1]
+                lsym = 0
+
+        ####################################
+        # Right bound - mirror nbsym points to the right
+        if ind_max[-1] < ind_min[-1]:
+            if S[-1] < S[ind_max[-1]]:
+                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
+                rmin = ind_min[max(end_min - nbsym - 1, 0) : -1][::-1]
+                rsym = ind_min[-1]
+            else:
+                rmax = np.append(ind_max[max(end_max - nbsym + 1, 0) :], len(S) - 1)[::-1]
+                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
+                rsym = len(S) - 1
+        else:
+            if S[-1] > S[ind_min[-1]]:
+                rmax = ind_max[max(end_max - nbsym - 1, 0) : -1][::-1]
+                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
+                rsym = ind_max[-1]
+            else:
+                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
+                rmin = np.append(ind_min[max(end_min - nbsym + 1, 0) :], len(S) - 1)[::-1]
+                rsym = len(S) - 1
+
+        # In case any array missing
+        if not lmin.size:
+            lmin = ind_min
+        if not rmin.size:
+            rmin = ind_min
+        if not lmax.size:
+            lmax = ind_max
+        if not rmax.size:
+            rmax = ind_max
+
+        # Mirror points
+        tlmin = 2 * T[lsym] - T[lmin]
+        tlmax = 2 * T[lsym] - T[lmax]
+        trmin = 2 * T[rsym] - T[rmin]
+        trmax = 2 * T[rsym] - T[rmax]
+
+        # If mirrored points are not outside passed time range.
+        if tlmin[0] > T[0] or tlmax[0] > T[0]:
+            if lsym == ind_max[0]:
+                lmax = ind_max[0 : min(end_max, nbsym)][::-1]
+            else:
+                lmin = ind_min[0 : min(end_min, nbsym)][::-1]
+
+            if lsym == 0:
+                raise Exception("Left edge BUG")
+
+            lsym = 0
+            tlmin = 2 * T[lsym] - T[lmin]
+            tlmax = 2 * T[lsym] - T[lmax]
+
+        if trmin[-1] < T[-1] or trmax[-1] < T[-1]:
+            if rsym == ind_max[-1]:
+                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
+            else:
+                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
+
+            if rsym == len(S) - 1:
+                raise Exception("Right edge BUG")
+
+            rsym = len(S) - 1
+            trmin = 2 * T[rsym] - T[rmin]
+            trmax = 2 * T[rsym] - T[rmax]
+
+        zlmax = S[lmax]
+        zlmin = S[lmin]
+        zrmax = S[rmax]
+        zrmin = S[rmin]
+
+        tmin = np.concatenate((tlmin, T[ind_min], trmin))
+        tmax = np.concatenate((tlmax, T[ind_max], trmax))
+        zmin = np.concatenate((zlmin, S[ind_min], zrmin))
+        zmax = np.concatenate((zlmax, S[ind_max], zrmax))
+
+        max_extrema = np.array([tmax, zmax])
+        min_extrema = np.array([tmin, zmin])
+
+        # Make double sure, that each extremum is significant
+        max_dup_idx = np.where(max_extrema[0, 1:] == max_extrema[0, :-1])
+        max_extrema = np.delete(max_extrema, max_dup_idx, axis=1)
+        min_dup_idx = np.where(min_extrema[0, 1:] == min_extrema[0, :-1])
+        min_extrema = np.delete(min_extrema, min_dup_idx, axis=1)
+
+        return max_extrema, min_extrema
+
+    def spline_points(self, T: np.ndarray, extrema: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Constructs spline over given points.
+
+        Parameters
+        ----------
+        T : numpy array
+            Position or time array.
+        extrema : numpy array
+            Position (1st row) and values (2nd row) of points.
+
+        Returns
+        -------
+        T : numpy array
+            Position array (same as input).
+        spline : numpy array
+            Spline array over given positions T.
+        """
+
+        kind = self.spline_kind.lower()
+        t = T[(T >= extrema[0, 0]) & (T <= extrema[0, -1])]
+
+        if kind == "akima":
+            return t, akima(extrema[0], extrema[1], t)
+
+        elif kind == "cubic":
+            if extrema.shape[1] > 3:
+                return t, cubic(extrema[0], extrema[1], t)
+            else:
+                return cubic_spline_3pts(extrema[0], extrema[1], t)
+
+        elif kind == "pchip":
+            return t, pchip(extrema[0], extrema[1], t)
+
+        elif kind == "cubic_hermite":
+            return t, cubic_hermite(extrema[0], extrema[1], t)
+
+        elif kind in ["slinear", "quadratic", "linear"]:
+            return T, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)
+
+        else:
+            raise ValueError("No such interpolation method!")
+
+    @staticmethod
+    def _not_duplicate(S: np.ndarray) -> np.ndarray:
+        """
+        Returns indices for not repeating values, where there is no extremum.
+
+        Example
+        -------
+        >>> S = [0, 1, 1, 1, 2, 3]
+        >>> idx = self._not_duplicate(S)
+        [0, 1, 3, 4, 5]
+        """
+        dup = (S[1:-1] == S[0:-2]) & (S[1:-1] == S[2:])
+        not_dup_idx = np.arange(1, len(S) - 1)[~dup]
+
+        idx = np.empty(len(not_dup_idx) + 2, dtype=np.int64)
+        idx[0] = 0
+        idx[-1] = len(S) - 1
+        idx[1:-1] = not_dup_idx
+
+        return idx
+
+    def find_extrema(self, T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
+        """
+        Returns extrema (minima and maxima) for given signal S.
+        Detection and definition of the extrema depends on
+        ``extrema_detection`` variable, set on initiation of EMD.
+
+        Parameters
+        ----------
+        T : numpy array
+            Position or time array.
+        S : numpy array
+            Input data S(T).
+
+        Returns
+        -------
+        local_max_pos : numpy array
+            Position of local maxima.
+        local_max_val : numpy array
+            Values of local maxima.
+        local_min_pos : numpy array
+            Position of local minima.
+        local_min_val : numpy array
+            Values of local minima.
+        """
+        if self.extrema_detection == "parabol":
+            return self._find_extrema_parabol(T, S)
+        elif self.extrema_detection == "simple":
+            return self._find_extrema_simple(T, S)
+        else:
+            raise ValueError("Incorrect extrema detection type. Please try: 'simple' or 'parabol'.")
+
+    def _find_extrema_parabol(self, T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
+        """
+        Performs parabol estimation of extremum, i.e. an extremum is a peak
+        of parabol spanned on 3 consecutive points, where the mid point is
+        the closest.
+
+        See :meth:`EMD.find_extrema()`.
+        """
+        # Finds indexes of zero-crossings
+        S1, S2 = S[:-1], S[1:]
+        indzer = np.nonzero(S1 * S2 < 0)[0]
+        if np.any(S == 0):
+            indz = np.nonzero(S == 0)[0]
+            if np.any(np.diff(indz) == 1):
+                zer = S == 0
+                dz = np.diff(np.append(np.append(0, zer), 0))
+                debz = np.nonzero(dz == 1)[0]
+                finz = np.nonzero(dz == -1)[0] - 1
+                indz = np.round((debz + finz) / 2.0)
+
+            indzer = np.sort(np.append(indzer, indz))
+
+        dt = float(T[1] - T[0])
+        scale = 2.0 * dt * dt
+
+        idx = self._not_duplicate(S)
+        T = T[idx]
+        S = S[idx]
+
+        # p - previous
+        # 0 - current
+        # n - next
+        Tp, T0, Tn = T[:-2], T[1:-1], T[2:]
+        Sp, S0, Sn = S[:-2], S[1:-1], S[2:]
+        # a = Sn + Sp - 2*S0
+        # b = 2*(Tn+Tp)*S0 - ((Tn+T0)*Sp+(T0+Tp)*Sn)
+        # c = Sp*T0*Tn -2*Tp*S0*Tn + Tp*T0*Sn
+        TnTp, T0Tn, TpT0 = Tn - Tp, T0 - Tn, Tp - T0
+        scale = Tp * Tn * Tn + Tp * Tp * T0 + T0 * T0 * Tn - Tp * Tp * Tn - Tp * T0 * T0 - T0 * Tn * Tn
+
+        a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
+        b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
+        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn
+
+        a = a / scale
+        b = b / scale
+        c = c / scale
+        a[a == 0] = 1e-14
+        tVertex = -0.5 * b / a
+        idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
+
+        a, b, c = a[idx], b[idx], c[idx]
+        tVertex = tVertex[idx]
+        sVertex = a * tVertex * tVertex + b * tVertex + c
+
+        local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
+        local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
+
+        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer
+
+    @staticmethod
+    def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
+        """
+        Performs extrema detection, where extremum is defined as a point,
+        that is above/below its neighbours.
+
+        See :meth:`EMD.find_extrema`.
+        """
+
+        # Finds indexes of zero-crossings
+        S1, S2 = S[:-1], S[1:]
+        indzer = np.nonzero(S1 * S2 < 0)[0]
+        if np.any(S == 0):
+            indz = np.nonzero(S == 0)[0]
+            if np.any(np.diff(indz) == 1):
+                zer = S == 0
+                dz = np.diff(np.concatenate(([0], zer, [0])))
+                debz = np.nonzero(dz == 1)[0]
+                finz = np.nonzero(dz == -1)[0] - 1
+                indz = np.round((debz + finz) / 2.0)
+
+            indzer = np.sort(np.append(indzer, indz))
+
+        # Finds local extrema
+        d = np.diff(S)
+        d1, d2 = d[:-1], d[1:]
+        sign_change = d1 * d2 < 0
+        indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
+        indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1
+
+        # When two or more points have the same value (flat plateaus)
+        if np.any(d == 0):
+            bad = d == 0
+            dd = np.diff(np.concatenate(([0], bad, [0])))
+            debs = np.nonzero(dd == 1)[0]
+            fins = np.nonzero(dd == -1)[0]
+
+            if len(debs) > 0 and debs[0] == 0:
+                if len(debs) > 1:
+                    debs, fins = debs[1:], fins[1:]
+                else:
+                    debs, fins = (
+                        np.array([], dtype=np.intp),
+                        np.array([], dtype=np.intp),
+                    )
+
+            if len(debs) > 0 and fins[-1] == len(S) - 1:
+                if len(debs) > 1:
+                    debs, fins = debs[:-1], fins[:-1]
+                else:
+                    debs, fins = (
+                        np.array([], dtype=np.intp),
+                        np.array([], dtype=np.intp),
+                    )
+
+            if len(debs) > 0:
+                d_before = d[debs - 1]
+                d_after = d[fins]
+                midpoints = np.round((fins + debs) / 2.0).astype(np.intp)
+
+                # Maxima: rising before plateau, falling after
+                max_mask = (d_before > 0) & (d_after < 0)
+                # Minima: falling before plateau, rising after
+                min_mask = (d_before < 0) & (d_after > 0)
+
+                if np.any(max_mask):
+                    indmax = np.sort(np.concatenate([indmax, midpoints[max_mask]]))
+                if np.any(min_mask):
+                    indmin = np.sort(np.concatenate([indmin, midpoints[min_mask]]))
+
+        local_max_pos = T[indmax]
+        local_max_val = S[indmax]
+        local_min_pos = T[indmin]
+        local_min_val = S[indmin]
+
+        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer
+
+    def end_condition(self, S: np.ndarray, IMF: np.ndarray) -> bool:
+        """Tests for end condition of whole EMD. The procedure will stop if:
+
+        * Absolute amplitude (max - min) is below *range_thr* threshold, or
+        * Metric L1 (mean absolute difference) is below *total_power_thr* threshold.
+
+        Parameters
+        ----------
+        S : numpy array
+            Original signal on which EMD was performed.
+        IMF : numpy 2D array
+            Set of IMFs where each row is IMF. Their order is not important.
+
+        Returns
+        -------
+        end : bool
+            Whether sifting is finished.
+        """
+        # When to stop EMD
+        tmp = S - np.sum(IMF, axis=0)
+
+        if np.max(tmp) - np.min(tmp) < self.range_thr:
+            self.logger.debug("FINISHED -- RANGE")
+            return True
+
+        if np.sum(np.abs(tmp)) < self.total_power_thr:
+            self.logger.debug("FINISHED -- SUM POWER")
+            return True
+
+        return False
+
+    def check_imf(
+        self,
+        imf_new: np.ndarray,
+        imf_old: np.ndarray,
+        eMax: np.ndarray,
+        eMin: np.ndarray,
+    ) -> bool:
+        """
+        Huang criteria for **IMF** (similar to Cauchy convergence test).
+        Signal is an IMF if consecutive siftings do not affect signal
+        in a significant manner.
+        """
+        # local max are >0 and local min are <0
+        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):
+            return False
+
+        # Convergence
+        if np.sum(imf_new**2) < 1e-10:
+            return False
+
+        # Precompute values
+        imf_diff = imf_new - imf_old
+        imf_diff_sqrd_sum = np.sum(imf_diff * imf_diff)
+
+        # Scaled variance test
+        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old))
+        if svar < self.svar_thr:
+            self.logger.debug("Scaled variance -- PASSED")
+            return True
+
+        # Standard deviation test
+        std = np.sum((imf_diff / imf_new) ** 2)
+        if std < self.std_thr:
+            self.logger.debug("Standard deviation -- PASSED")
+            return True
+
+        energy_ratio = imf_diff_sqrd_sum / np.sum(imf_old * imf_old)
+        if energy_ratio < self.energy_ratio_thr:
+            self.logger.debug("Energy ratio -- PASSED")
+            return True
+
+        return False
+
+    @staticmethod
+    def _normalize_time(t: np.ndarray) -> np.ndarray:
+        """
+        Normalize time array so that it doesn't explode on tiny values.
+        Returned array starts with 0 and the smallest increase is by 1.
+        """
+        d = np.diff(t)
+        assert np.all(d != 0), "All time domain values needs to be unique"
+        return (t - t[0]) / np.min(d)
+
+    def emd(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
+        """
+        Performs Empirical Mode Decomposition on signal S.
+        The decomposition is limited to *max_imf* imfs.
+        Returns IMF functions and residue in a single numpy array format.
+
+        Parameters
+        ----------
+        S : numpy array,
+            Input signal.
+        T : numpy array, (default: None)
+            Position or time array. If None is passed or self.extrema_detection == "simple",
+            then numpy range is created.
+        max_imf : int, (default: -1)
+            IMF number to which decomposition should be performed.
+            Negative value means *all*.
+
+        Returns
+        -------
+        IMFs and residue : numpy array
+            A numpy array which cointains both the IMFs and residual, if any, appended as
+            the last slice.
+        """
+        if T is not None and len(S) != len(T):
+            raise ValueError("Time series have different sizes: len(S) -> {} != {} <- len(T)".format(len(S), len(T)))
+
+        if T is None or self.extrema_detection == "simple":
+            T = get_timeline(len(S), S.dtype)
+
+        # Normalize T so that it doesn't explode
+        T = self._normalize_time(T)
+
+        # Make sure same types are dealt
+        S, T = unify_types(S, T)
+        self.DTYPE = S.dtype
+        N = len(S)
+
+        residue = S.astype(self.DTYPE)
+        imf = np.zeros(len(S), dtype=self.DTYPE)
+        imf_old = np.nan
+
+        if S.shape != T.shape:
+            raise ValueError("Position or time array should be the same size as signal.")
+
+        # Create arrays
+        imfNo = 0
+        extNo = -1
+        IMF = np.empty((imfNo, N))  # Numpy container for IMF
+        finished = False
+
+        while not finished:
+            self.logger.debug("IMF -- %s", imfNo)
+
+            residue[:] = S - np.sum(IMF[:imfNo], axis=0)
+            imf = residue.copy()
+            mean = np.zeros(len(S), dtype=self.DTYPE)
+
+            # Counters
+            n = 0  # All iterations for current imf.
+            n_h = 0  # counts when |#zero - #ext| <=1
+
+            while True:
+                n += 1
+                if n >= self.MAX_ITERATION:
+                    self.logger.info("Max iterations reached for IMF. Continuing with another IMF.")
+                    break
+
+                ext_res = self.find_extrema(T, imf)
+                max_pos, min_pos, indzer = ext_res[0], ext_res[2], ext_res[4]
+                extNo = len(min_pos) + len(max_pos)
+                nzm = len(indzer)
+
+                if extNo > 2:
+                    max_env, min_env, eMax, eMin = self.extract_max_min_spline(T, imf)
+                    mean[:] = 0.5 * (max_env + min_env)
+
+                    imf_old = imf.copy()
+                    imf[:] = imf - mean
+
+                    # Fix number of iterations
+                    if self.FIXE:
+                        if n >= self.FIXE:
+                            break
+
+                    # Fix number of iterations after number of zero-crossings
+                    # and extrema differ at most by one.
+                    elif self.FIXE_H:
+                        tmp_residue = self.find_extrema(T, imf)
+                        max_pos, min_pos, ind_zer = (
+                            tmp_residue[0],
+                            tmp_residue[2],
+                            tmp_residue[4],
+                        )
+                        extNo = len(max_pos) + len(min_pos)
+                        nzm = len(ind_zer)
+
+                        if n == 1:
+                            continue
+
+                        # If proto-IMF add one, or reset counter otherwise
+                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0
+
+                        # STOP
+                        if n_h >= self.FIXE_H:
+                            break
+
+                    # Stops after default stopping criteria are met
+                    else:
+                        ext_res = self.find_extrema(T, imf)
+                        max_pos, _, min_pos, _, ind_zer = ext_res
+                        extNo = len(max_pos) + len(min_pos)
+                        nzm = len(ind_zer)
+
+                        if imf_old is np.nan:
+                            continue
+
+                        f1 = self.check_imf(imf, imf_old, eMax, eMin)
+                        f2 = abs(extNo - nzm) < 2
+
+                        # STOP
+                        if f1 and f2:
+                            break
+
+                else:  # Less than 2 ext, i.e. trend
+                    finished = True
+                    break
+            # END OF IMF SIFTING
+
+            IMF = np.vstack((IMF, imf.copy()))
+            imfNo += 1
+
+            if self.end_condition(S, IMF) or imfNo == max_imf:
+                finished = True
+                break
+
+        # If the last sifting had 2 or less extrema then that's a trend (residue)
+        if extNo <= 2:
+            IMF = IMF[:-1]
+
+        # Saving imfs and residue for external references
+        self.imfs = IMF.copy()
+        self.residue = S - np.sum(self.imfs, axis=0)
+
+        # If residue isn't 0 then add it to the output
+        if not np.allclose(self.residue, 0):
+            IMF = np.vstack((IMF, self.residue))
+
+        return IMF
+
+    def get_imfs_and_residue(self) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Provides access to separated imfs and residue from recently analysed signal.
+
+        Returns
+        -------
+        imfs : np.ndarray
+            Obtained IMFs
+        residue : np.ndarray
+            Residue.
+
+        """
+        if self.imfs is None or self.residue is None:
+            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
+        return self.imfs, self.residue
+
+    def get_imfs_and_trend(self) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Provides access to separated imfs and trend from recently analysed signal.
+        Note that this may differ from the `get_imfs_and_residue` as the trend isn't
+        necessarily the residue. Residue is a point-wise difference between input signal
+        and all obtained components, whereas trend is the slowest component (can be zero).
+
+        Returns
+        -------
+        imfs : np.ndarray
+            Obtained IMFs
+        trend : np.ndarray
+            The main trend.
+
+        """
+        if self.imfs is None or self.residue is None:
+            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
+
+        imfs, residue = self.get_imfs_and_residue()
+        if len(imfs) > 0 and np.allclose(residue, 0):
+            return imfs[:-1].copy(), imfs[-1].copy()
+        else:
+            return imfs, residue
+
+
+###################################################
+
+
+if __name__ == "__main__":
+    import pylab as plt
+
+    # Logging options
+    logging.basicConfig(level=logging.DEBUG)
+
+    # EMD options
+    max_imf = -1
+    DTYPE = np.float64
+
+    # Signal options
+    N = 400
+    tMin, tMax = 0, 2 * np.pi
+    T = np.linspace(tMin, tMax, N, dtype=DTYPE)
+
+    S = np.sin(20 * T * (1 + 0.2 * T)) + T**2 + np.sin(13 * T)
+    S = S.astype(DTYPE)
+    print("Input S.dtype: " + str(S.dtype))
+
+    # Prepare and run EMD
+    emd = EMD()
+    emd.FIXE_H = 5
+    emd.nbsym = 2
+    emd.spline_kind = "cubic"
+    emd.DTYPE = DTYPE
+
+    imfs = emd.emd(S, T, max_imf)
+    imfNo = imfs.shape[0]
+
+    # Plot results
+    c = 1
+    r = np.ceil((imfNo + 1) / c)
+
+    plt.ioff()
+    plt.subplot(r, c, 1)
+    plt.plot(T, S, "r")
+    plt.xlim((tMin, tMax))
+    plt.title("Original signal")
+
+    for num in range(imfNo):
+        plt.subplot(r, c, num + 2)
+        plt.plot(T, imfs[num], "g")
+        plt.xlim((tMin, tMax))
+        plt.ylabel("Imf " + str(num + 1))
+
+    plt.tight_layout()
+    plt.show()
-- 
2.43.0


From ad26ca7a7c509df62781350721a19f3226012746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:15 +0000
Subject: [PATCH 04/24] fix: JitEMD residue is a 1D array

The residue was kept as a (1, N) array, unlike EMD's, which made EEMD with
separate_trends fail when JitEMD is passed as ext_EMD.
---
 PyEMD/experimental/jitemd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 3c8b4be..0aaeb96 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -74,7 +74,7 @@ class JitEMD:
             config=self.config,
         )
         self.imfs = imfs[:-1, :]
-        self.residue = imfs[-1:, :]
+        self.residue = imfs[-1, :]
         return imfs
 
     def __call__(self, s, t, max_imf=-1):
-- 
2.43.0


From 64acfbe656490e5c3d71e13ed944712fbbecdd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:52 +0000
Subject: [PATCH 05/24] fix: EEMD trials in parallel mode use independent noise

Noise was drawn in worker processes from pickled copies of the same random
generator, one copy per pool chunk, so trials in different chunks (all of them
for up to four trials per process) shared the same noise, and since the parent's generator
never advanced every call repeated the same ensemble. Noise is now drawn in the
parent, in the same order as in the sequential mode.
---
 PyEMD/EEMD.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index e4ebe2b..b6b32e5 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -196,7 +196,10 @@ class EEMD:
             map_pool = pool.map
         else:
             map_pool = map
-        all_IMFs = map_pool(self._trial_update, range(self.trials))
+        # Noise is always generated in this process. Worker processes hold copies of the random generator
+        # and drawing noise there would result in trials (and following calls) sharing the same noise.
+        noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))
+        all_IMFs = map_pool(self._trial_update, noises)
 
         if self.parallel:
             pool.close()
@@ -229,12 +232,8 @@ class EEMD:
 
         return self.E_IMF
 
-    def _trial_update(self, trial) -> Tuple[np.ndarray, Optional[np.ndarray]]:
-        """A single trial evaluation, i.e. EMD(signal + noise).
-
-        *Note*: Although `trial` argument isn't used it's needed for the (multiprocessing) map method.
-        """
-        noise = self.generate_noise(self._scale, self._N)
+    def _trial_update(self, noise: np.ndarray) -> Tuple[np.ndarray, Optional[np.ndarray]]:
+        """A single trial evaluation, i.e. EMD(signal + noise)."""
         imfs = self.emd(self._S + noise, self._T, self.max_imf)
         trend = None
         if self.separate_trends:
-- 
2.43.0


From f4d46c24df497e6e1d3d3a0c3d13b4c45e449217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:27 +0000
Subject: [PATCH 06/24] fix: failed EEMD run keeps results of the previous one

An exception in one of sequential trials left the ensemble partially filled
with lists, so the statistics methods crashed and all_imfs didn't match the
stored components.
---
 PyEMD/EEMD.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index b6b32e5..6a0fe28 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -199,14 +199,15 @@ class EEMD:
         # Noise is always generated in this process. Worker processes hold copies of the random generator
         # and drawing noise there would result in trials (and following calls) sharing the same noise.
         noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))
-        all_IMFs = map_pool(self._trial_update, noises)
+        it = iter if not progress else lambda x: tqdm(x, desc="EEMD", total=self.trials)
+        # All trials need to succeed before anything from the previous run is dropped
+        all_IMFs = list(it(map_pool(self._trial_update, noises)))
 
         if self.parallel:
             pool.close()
 
         self._all_imfs = defaultdict(list)
-        it = iter if not progress else lambda x: tqdm(x, desc="EEMD", total=self.trials)
-        for imfs, trend in it(all_IMFs):
+        for imfs, trend in all_IMFs:
             # A bit of explanation here.
             # If the `trend` is not None, that means it was intentionally separated in the decomp process.
             # This might due to `separate_trends` flag which means that trends are summed up separately
-- 
2.43.0


From bc4139fa9c89af4b3bb53b2d5f47b18c87ef3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:04 +0000
Subject: [PATCH 07/24] fix: CEEMDAN on constant signals

Normalising by zero standard deviation turned the whole decomposition into NaN.
---
 PyEMD/CEEMDAN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 0761bfa..3c57130 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -217,7 +217,7 @@ class CEEMDAN:
         components : np.ndarray
             CEEMDAN components.
         """
-        scale_s = np.std(S)
+        scale_s = np.std(S) or 1.0  # Constant signal has no scale
         S = S / scale_s
 
         # Define all noise
-- 
2.43.0


From e9c1b7ec9bec0aea8974ac4aa64f9300ae63475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:23 +0000
Subject: [PATCH 08/24] fix: plot a single IMF without residue

With one row pylab returns an Axes object, which isn't iterable.
---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index eb6578e..59ea762 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -59,7 +59,7 @@ class Visualisation(object):
         fig, axes = plt.subplots(num_rows, 1, figsize=(self.PLOT_WIDTH, num_rows * self.PLOT_HEIGHT_PER_IMF))
 
         if num_rows == 1:
-            axes = list(axes)
+            axes = fig.axes
 
         axes[0].set_title("Time series")
 
-- 
2.43.0


From 1935def0f78949a6b7fce39952bc7079166bef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 09/24] fix: BEMD envelopes use values of extrema

Positions of extrema are returned as (x, y) but were used as (row, column), so
envelopes were spanned on values of transposed pixels and images which aren't
square failed with IndexError.
---
 PyEMD/BEMD.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyEMD/BEMD.py b/PyEMD/BEMD.py
index 08e4195..b0168f4 100644
--- a/PyEMD/BEMD.py
+++ b/PyEMD/BEMD.py
@@ -70,9 +70,10 @@ class BEMD:
         max_env : numpy 2D array
             Top envelope in form of an image.
         """
-        xi, yi = np.meshgrid(np.arange(image.shape[0]), np.arange(image.shape[1]))
-        min_val = image[min_peaks_pos]
-        max_val = image[max_peaks_pos]
+        # Positions are (x, y), i.e. (column, row)
+        xi, yi = np.meshgrid(np.arange(image.shape[1]), np.arange(image.shape[0]))
+        min_val = image[min_peaks_pos[1], min_peaks_pos[0]]
+        max_val = image[max_peaks_pos[1], max_peaks_pos[0]]
         min_env = self.spline_points(min_peaks_pos[0], min_peaks_pos[1], min_val, xi, yi)
         max_env = self.spline_points(max_peaks_pos[0], max_peaks_pos[1], max_val, xi, yi)
         return min_env, max_env
-- 
2.43.0


From e4049d52e77df21c6677fd3fa3fd6920de7d648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:10 +0000
Subject: [PATCH 10/24] fix: CEEMDAN crashed when the noise is zero
 (noise_scale=0)

---
 PyEMD/CEEMDAN.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 3c57130..b9469ce 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -335,7 +335,8 @@ class CEEMDAN:
 
         # Normalize w/ respect to 1st IMF's std
         if self.beta_progress:
-            all_stds = [np.std(imfs[0]) for imfs in all_noise_EMD]
+            # Zero noise doesn't have any mode to normalize with
+            all_stds = [np.std(imfs[0]) if len(imfs) > 0 else 1.0 for imfs in all_noise_EMD]
             all_noise_EMD = [imfs / imfs_std for (imfs, imfs_std) in zip(all_noise_EMD, all_stds)]
 
         return all_noise_EMD
@@ -374,7 +375,8 @@ class CEEMDAN:
     def _trial_update(self, trial: int) -> np.ndarray:
         """A single trial evaluation, i.e. EMD(signal + noise)."""
         # Generate noise
-        noise = self.epsilon * self.all_noise_EMD[trial][0]
+        noise_imf = self.all_noise_EMD[trial]
+        noise = self.epsilon * noise_imf[0] if len(noise_imf) > 0 else 0
         return self.emd(self._S + noise, self._T, self.max_imf)
 
     def emd(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
-- 
2.43.0


From 31460c652b2b504b02b1c4a3a247136fac6bc699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:27 +0000
Subject: [PATCH 11/24] fix: CEEMDAN missing time axis had repeated values for
 long half precision signals

---
 PyEMD/CEEMDAN.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index b9469ce..ef9db7a 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -17,6 +17,8 @@ from typing import Dict, List, Optional, Sequence, Tuple, Union
 import numpy as np
 from tqdm import tqdm
 
+from PyEMD.utils import get_timeline
+
 
 class CEEMDAN:
     """
@@ -343,7 +345,7 @@ class CEEMDAN:
 
     def _eemd(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1, progress=True) -> np.ndarray:
         if T is None:
-            T = np.arange(len(S), dtype=S.dtype)
+            T = get_timeline(len(S), S.dtype)
 
         self._S = S
         self._T = T
-- 
2.43.0


From 099c5e1b2ac5212297940668ba3d93d5e7d8bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 12/24] fix: EEMD noise amplitude overflowed for small integer
 signals

---
 PyEMD/EEMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index 6a0fe28..d74cafb 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -182,7 +182,7 @@ class EEMD:
         if T is None:
             T = get_timeline(len(S), S.dtype)
 
-        scale = self.noise_width * np.abs(np.max(S) - np.min(S))
+        scale = self.noise_width * (float(np.max(S)) - float(np.min(S)))
         self._S = S
         self._T = T
         self._N = len(S)
-- 
2.43.0


From 8638e965b269a9b9ab8174b5c645c37c357f5872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 13/24] fix: decomposition of half precision signals crashed
 with three spline knots

---
 PyEMD/splines.py | 129 ++++++++++++++++++++++++-----------------------
 1 file changed, 65 insertions(+), 64 deletions(-)

diff --git a/PyEMD/splines.py b/PyEMD/splines.py
index ea3cec4..b47eb2f 100644
--- a/PyEMD/splines.py
+++ b/PyEMD/splines.py
@@ -1,64 +1,65 @@
-import numpy as np
-from scipy.interpolate import Akima1DInterpolator, CubicHermiteSpline, CubicSpline, PchipInterpolator
-
-
-def cubic_spline_3pts(x, y, T):
-    """
-    Apparently scipy.interpolate.interp1d does not support
-    cubic spline for less than 4 points.
-    """
-    x0, x1, x2 = x
-    y0, y1, y2 = y
-
-    x1x0, x2x1 = x1 - x0, x2 - x1
-    y1y0, y2y1 = y1 - y0, y2 - y1
-    _x1x0, _x2x1 = 1.0 / x1x0, 1.0 / x2x1
-
-    m11, m12, m13 = 2 * _x1x0, _x1x0, 0
-    m21, m22, m23 = _x1x0, 2.0 * (_x1x0 + _x2x1), _x2x1
-    m31, m32, m33 = 0, _x2x1, 2.0 * _x2x1
-
-    v1 = 3 * y1y0 * _x1x0 * _x1x0
-    v3 = 3 * y2y1 * _x2x1 * _x2x1
-    v2 = v1 + v3
-
-    M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]])
-    v = np.array([v1, v2, v3]).T
-    k = np.linalg.solve(M, v)
-
-    a1 = k[0] * x1x0 - y1y0
-    b1 = -k[1] * x1x0 + y1y0
-    a2 = k[1] * x2x1 - y2y1
-    b2 = -k[2] * x2x1 + y2y1
-
-    t = T[np.r_[T >= x0] & np.r_[T <= x2]]
-    t1 = (T[np.r_[T >= x0] & np.r_[T < x1]] - x0) / x1x0
-    t2 = (T[np.r_[T >= x1] & np.r_[T <= x2]] - x1) / x2x1
-    t11, t22 = 1.0 - t1, 1.0 - t2
-
-    q1 = t11 * y0 + t1 * y1 + t1 * t11 * (a1 * t11 + b1 * t1)
-    q2 = t22 * y1 + t2 * y2 + t2 * t22 * (a2 * t22 + b2 * t2)
-    q = np.append(q1, q2)
-
-    return t, q
-
-
-def akima(X, Y, x):
-    spl = Akima1DInterpolator(X, Y)
-    return spl(x)
-
-
-def cubic_hermite(X, Y, x):
-    dydx = np.gradient(Y, X)
-    spl = CubicHermiteSpline(X, Y, dydx)
-    return spl(x)
-
-
-def cubic(X, Y, x):
-    spl = CubicSpline(X, Y)
-    return spl(x)
-
-
-def pchip(X, Y, x):
-    spl = PchipInterpolator(X, Y)
-    return spl(x)
+import numpy as np
+from scipy.interpolate import Akima1DInterpolator, CubicHermiteSpline, CubicSpline, PchipInterpolator
+
+
+def cubic_spline_3pts(x, y, T):
+    """
+    Apparently scipy.interpolate.interp1d does not support
+    cubic spline for less than 4 points.
+    """
+    x0, x1, x2 = x
+    y0, y1, y2 = y
+
+    x1x0, x2x1 = x1 - x0, x2 - x1
+    y1y0, y2y1 = y1 - y0, y2 - y1
+    _x1x0, _x2x1 = 1.0 / x1x0, 1.0 / x2x1
+
+    m11, m12, m13 = 2 * _x1x0, _x1x0, 0
+    m21, m22, m23 = _x1x0, 2.0 * (_x1x0 + _x2x1), _x2x1
+    m31, m32, m33 = 0, _x2x1, 2.0 * _x2x1
+
+    v1 = 3 * y1y0 * _x1x0 * _x1x0
+    v3 = 3 * y2y1 * _x2x1 * _x2x1
+    v2 = v1 + v3
+
+    M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]])
+    v = np.array([v1, v2, v3]).T
+    # Half precision isn't supported by numpy.linalg
+    k = np.linalg.solve(M.astype(np.float64), v.astype(np.float64))
+
+    a1 = k[0] * x1x0 - y1y0
+    b1 = -k[1] * x1x0 + y1y0
+    a2 = k[1] * x2x1 - y2y1
+    b2 = -k[2] * x2x1 + y2y1
+
+    t = T[np.r_[T >= x0] & np.r_[T <= x2]]
+    t1 = (T[np.r_[T >= x0] & np.r_[T < x1]] - x0) / x1x0
+    t2 = (T[np.r_[T >= x1] & np.r_[T <= x2]] - x1) / x2x1
+    t11, t22 = 1.0 - t1, 1.0 - t2
+
+    q1 = t11 * y0 + t1 * y1 + t1 * t11 * (a1 * t11 + b1 * t1)
+    q2 = t22 * y1 + t2 * y2 + t2 * t22 * (a2 * t22 + b2 * t2)
+    q = np.append(q1, q2)
+
+    return t, q
+
+
+def akima(X, Y, x):
+    spl = Akima1DInterpolator(X, Y)
+    return spl(x)
+
+
+def cubic_hermite(X, Y, x):
+    dydx = np.gradient(Y, X)
+    spl = CubicHermiteSpline(X, Y, dydx)
+    return spl(x)
+
+
+def cubic(X, Y, x):
+    spl = CubicSpline(X, Y)
+    return spl(x)
+
+
+def pchip(X, Y, x):
+    spl = PchipInterpolator(X, Y)
+    return spl(x)
-- 
2.43.0


From 5dfe06fa759e95e37c44c4bd5907d11329719280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:34 +0000
Subject: [PATCH 14/24] fix: restore line endings of EMD.py and splines.py lost
 in earlier fixes

---
 PyEMD/EMD.py     | 2024 +++++++++++++++++++++++-----------------------
 PyEMD/splines.py |  126 +--
 2 files changed, 1075 insertions(+), 1075 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 5c05428..603145a 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -1,1012 +1,1012 @@
-#!/usr/bin/python
-# coding: UTF-8
-#
-# Author:   Dawid Laszuk
-# Contact:  https://github.com/laszukdawid/PyEMD/issues
-#
-# Feel free to contact for any information.
-
-import logging
-from typing import Optional, Tuple
-
-import numpy as np
-from scipy.interpolate import interp1d
-
-from PyEMD.splines import akima, cubic, cubic_hermite, cubic_spline_3pts, pchip
-from PyEMD.utils import get_timeline, unify_types
-
-FindExtremaOutput = Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray]
-
-
-class EMD:
-    """
-    .. _EMD:
-
-    **Empirical Mode Decomposition**
-
-    Method of decomposing signal into Intrinsic Mode Functions (IMFs)
-    based on algorithm presented in Huang et al. [Huang1998]_.
-
-    Algorithm was validated with Rilling et al. [Rilling2003]_ Matlab's version from 3.2007.
-
-    Threshold which control the goodness of the decomposition:
-        * `std_thr` --- Test for the proto-IMF how variance changes between siftings.
-        * `svar_thr` -- Test for the proto-IMF how energy changes between siftings.
-        * `total_power_thr` --- Test for the whole decomp how much of energy is solved.
-        * `range_thr` --- Test for the whole decomp whether the difference is tiny.
-
-
-    References
-    ----------
-    .. [Huang1998] N. E. Huang et al., "The empirical mode decomposition and the
-        Hilbert spectrum for non-linear and non stationary time series
-        analysis", Proc. Royal Soc. London A, Vol. 454, pp. 903-995, 1998
-    .. [Rilling2003] G. Rilling, P. Flandrin and P. Goncalves, "On Empirical Mode
-        Decomposition and its algorithms", IEEE-EURASIP Workshop on
-        Nonlinear Signal and Image Processing NSIP-03, Grado (I), June 2003
-
-    Examples
-    --------
-    >>> import numpy as np
-    >>> T = np.linspace(0, 1, 100)
-    >>> S = np.sin(2*2*np.pi*T)
-    >>> emd = EMD(extrema_detection='parabol')
-    >>> IMFs = emd.emd(S)
-    >>> IMFs.shape
-    (1, 100)
-    """
-
-    logger = logging.getLogger(__name__)
-
-    def __init__(self, spline_kind: str = "cubic", nbsym: int = 2, **kwargs):
-        """Initiate *EMD* instance.
-
-        Configuration, such as threshold values, can be passed as kwargs (keyword arguments).
-
-        Parameters
-        ----------
-        FIXE : int (default: 0)
-        FIXE_H : int (default: 0)
-        MAX_ITERATION : int (default 1000)
-            Maximum number of iterations per single sifting in EMD.
-        energy_ratio_thr : float (default: 0.2)
-            Threshold value on energy ratio per IMF check.
-        std_thr float : (default 0.2)
-            Threshold value on standard deviation per IMF check.
-        svar_thr float : (default 0.001)
-            Threshold value on scaled variance per IMF check.
-        total_power_thr : float (default 0.005)
-            Threshold value on total power per EMD decomposition.
-        range_thr : float (default 0.001)
-            Threshold for amplitude range (after scaling) per EMD decomposition.
-        extrema_detection : str (default 'simple')
-            Method used to finding extrema.
-        DTYPE : np.dtype (default np.float64)
-            Data type used.
-
-        Examples
-        --------
-        >>> emd = EMD(std_thr=0.01, range_thr=0.05)
-
-        """
-        # Declare constants
-        self.energy_ratio_thr = float(kwargs.get("energy_ratio_thr", 0.2))
-        self.std_thr = float(kwargs.get("std_thr", 0.2))
-        self.svar_thr = float(kwargs.get("svar_thr", 0.001))
-        self.total_power_thr = float(kwargs.get("total_power_thr", 0.005))
-        self.range_thr = float(kwargs.get("range_thr", 0.001))
-
-        self.nbsym = int(kwargs.get("nbsym", nbsym))
-        self.scale_factor = float(kwargs.get("scale_factor", 1.0))
-
-        self.spline_kind = spline_kind
-        self.extrema_detection = kwargs.get("extrema_detection", "simple")  # simple, parabol
-        assert self.extrema_detection in (
-            "simple",
-            "parabol",
-        ), "Only 'simple' and 'parabol' values supported"
-
-        self.DTYPE = kwargs.get("DTYPE", np.float64)
-        self.FIXE = int(kwargs.get("FIXE", 0))
-        self.FIXE_H = int(kwargs.get("FIXE_H", 0))
-
-        self.MAX_ITERATION = int(kwargs.get("MAX_ITERATION", 1000))
-
-        # Instance global declaration
-        self.imfs = None  # Optional[np.ndarray]
-        self.residue = None  # Optional[np.ndarray]
-
-    def __call__(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
-        return self.emd(S, T=T, max_imf=max_imf)
-
-    def extract_max_min_spline(
-        self, T: np.ndarray, S: np.ndarray
-    ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
-        """
-        Extracts top and bottom envelopes based on the signal,
-        which are constructed based on maxima and minima, respectively.
-
-        Parameters
-        ----------
-        T : numpy array
-            Position or time array.
-        S : numpy array
-            Input data S(T).
-
-        Returns
-        -------
-        max_spline : numpy array
-            Spline spanned on S maxima.
-        min_spline : numpy array
-            Spline spanned on S minima.
-        max_extrema : numpy array
-            Points indicating local maxima.
-        min_extrema : numpy array
-            Points indicating local minima.
-        """
-
-        # Get indexes of extrema
-        ext_res = self.find_extrema(T, S)
-        max_pos, max_val = ext_res[0], ext_res[1]
-        min_pos, min_val = ext_res[2], ext_res[3]
-
-        if len(max_pos) + len(min_pos) < 3:
-            return [-1] * 4  # TODO: Fix this. Doesn't match the signature.
-
-        #########################################
-        # Extrapolation of signal (over boundaries)
-        max_extrema, min_extrema = self.prepare_points(T, S, max_pos, max_val, min_pos, min_val)
-
-        _, max_spline = self.spline_points(T, max_extrema)
-        _, min_spline = self.spline_points(T, min_extrema)
-
-        return max_spline, min_spline, max_extrema, min_extrema
-
-    def prepare_points(
-        self,
-        T: np.ndarray,
-        S: np.ndarray,
-        max_pos: np.ndarray,
-        max_val: np.ndarray,
-        min_pos: np.ndarray,
-        min_val: np.ndarray,
-    ):
-        """
-        Performs extrapolation on edges by adding extra extrema, also known
-        as mirroring signal. The number of added points depends on *nbsym*
-        variable.
-
-        Parameters
-        ----------
-        T : numpy array
-            Position or time array.
-        S : numpy array
-            Input signal.
-        max_pos : iterable
-            Sorted time positions of maxima.
-        max_val : iterable
-            Signal values at max_pos positions.
-        min_pos : iterable
-            Sorted time positions of minima.
-        min_val : iterable
-            Signal values at min_pos positions.
-
-        Returns
-        -------
-        max_extrema : numpy array (2 rows)
-            Position (1st row) and values (2nd row) of minima.
-        min_extrema : numpy array (2 rows)
-            Position (1st row) and values (2nd row) of maxima.
-        """
-        if self.extrema_detection == "parabol":
-            return self.prepare_points_parabol(T, S, max_pos, max_val, min_pos, min_val)
-        elif self.extrema_detection == "simple":
-            return self.prepare_points_simple(T, S, max_pos, max_val, min_pos, min_val)
-        else:
-            msg = "Incorrect extrema detection type. Please try: 'simple' or 'parabol'."
-            raise ValueError(msg)
-
-    def prepare_points_parabol(self, T, S, max_pos, max_val, min_pos, min_val) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Performs mirroring on signal which extrema do not necessarily
-        belong on the position array.
-
-        See :meth:`EMD.prepare_points`.
-        """
-
-        # Need at least two extrema to perform mirroring
-        max_extrema = np.zeros((2, len(max_pos)), dtype=self.DTYPE)
-        min_extrema = np.zeros((2, len(min_pos)), dtype=self.DTYPE)
-
-        max_extrema[0], min_extrema[0] = max_pos, min_pos
-        max_extrema[1], min_extrema[1] = max_val, min_val
-
-        # Local variables
-        nbsym = self.nbsym
-        end_min, end_max = len(min_pos), len(max_pos)
-
-        ####################################
-        # Left bound
-        d_pos = max_pos[0] - min_pos[0]
-        left_ext_max_type = d_pos < 0  # True -> max, else min
-
-        # Left extremum is maximum
-        if left_ext_max_type:
-            if (S[0] > min_val[0]) and (np.abs(d_pos) > (max_pos[0] - T[0])):
-                # mirror signal to first extrema
-                expand_left_max_pos = 2 * max_pos[0] - max_pos[1 : nbsym + 1]
-                expand_left_min_pos = 2 * max_pos[0] - min_pos[0:nbsym]
-                expand_left_max_val = max_val[1 : nbsym + 1]
-                expand_left_min_val = min_val[0:nbsym]
-            else:
-                # mirror signal to beginning
-                expand_left_max_pos = 2 * T[0] - max_pos[0:nbsym]
-                expand_left_min_pos = 2 * T[0] - np.append(T[0], min_pos[0 : nbsym - 1])
-                expand_left_max_val = max_val[0:nbsym]
-                expand_left_min_val = np.append(S[0], min_val[0 : nbsym - 1])
-
-        # Left extremum is minimum
-        else:
-            if (S[0] < max_val[0]) and (np.abs(d_pos) > (min_pos[0] - T[0])):
-                # mirror signal to first extrema
-                expand_left_max_pos = 2 * min_pos[0] - max_pos[0:nbsym]
-                expand_left_min_pos = 2 * min_pos[0] - min_pos[1 : nbsym + 1]
-                expand_left_max_val = max_val[0:nbsym]
-                expand_left_min_val = min_val[1 : nbsym + 1]
-            else:
-                # mirror signal to beginning
-                expand_left_max_pos = 2 * T[0] - np.append(T[0], max_pos[0 : nbsym - 1])
-                expand_left_min_pos = 2 * T[0] - min_pos[0:nbsym]
-                expand_left_max_val = np.append(S[0], max_val[0 : nbsym - 1])
-                expand_left_min_val = min_val[0:nbsym]
-
-        if not expand_left_min_pos.shape:
-            expand_left_min_pos, expand_left_min_val = min_pos, min_val
-        if not expand_left_max_pos.shape:
-            expand_left_max_pos, expand_left_max_val = max_pos, max_val
-
-        expand_left_min = np.vstack((expand_left_min_pos[::-1], expand_left_min_val[::-1]))
-        expand_left_max = np.vstack((expand_left_max_pos[::-1], expand_left_max_val[::-1]))
-
-        ####################################
-        # Right bound
-        d_pos = max_pos[-1] - min_pos[-1]
-        right_ext_max_type = d_pos > 0
-
-        # Right extremum is maximum
-        if not right_ext_max_type:
-            if (S[-1] < max_val[-1]) and (np.abs(d_pos) > (T[-1] - min_pos[-1])):
-                # mirror signal to last extrema
-                idx_max = max(0, end_max - nbsym)
-                idx_min = max(0, end_min - nbsym - 1)
-                expand_right_max_pos = 2 * min_pos[-1] - max_pos[idx_max:]
-                expand_right_min_pos = 2 * min_pos[-1] - min_pos[idx_min:-1]
-                expand_right_max_val = max_val[idx_max:]
-                expand_right_min_val = min_val[idx_min:-1]
-            else:
-                # mirror signal to end
-                idx_max = max(0, end_max - nbsym + 1)
-                idx_min = max(0, end_min - nbsym)
-                expand_right_max_pos = 2 * T[-1] - np.append(max_pos[idx_max:], T[-1])
-                expand_right_min_pos = 2 * T[-1] - min_pos[idx_min:]
-                expand_right_max_val = np.append(max_val[idx_max:], S[-1])
-                expand_right_min_val = min_val[idx_min:]
-
-        # Right extremum is minimum
-        else:
-            if (S[-1] > min_val[-1]) and len(max_pos) > 1 and (np.abs(d_pos) > (T[-1] - max_pos[-1])):
-                # mirror signal to last extremum
-                idx_max = max(0, end_max - nbsym - 1)
-                idx_min = max(0, end_min - nbsym)
-                expand_right_max_pos = 2 * max_pos[-1] - max_pos[idx_max:-1]
-                expand_right_min_pos = 2 * max_pos[-1] - min_pos[idx_min:]
-                expand_right_max_val = max_val[idx_max:-1]
-                expand_right_min_val = min_val[idx_min:]
-            else:
-                # mirror signal to end
-                idx_max = max(0, end_max - nbsym)
-                idx_min = max(0, end_min - nbsym + 1)
-                expand_right_max_pos = 2 * T[-1] - max_pos[idx_max:]
-                expand_right_min_pos = 2 * T[-1] - np.append(min_pos[idx_min:], T[-1])
-                expand_right_max_val = max_val[idx_max:]
-                expand_right_min_val = np.append(min_val[idx_min:], S[-1])
-
-        if not expand_right_min_pos.shape:
-            expand_right_min_pos, expand_right_min_val = min_pos, min_val
-        if not expand_right_max_pos.shape:
-            expand_right_max_pos, expand_right_max_val = max_pos, max_val
-
-        expand_right_min = np.vstack((expand_right_min_pos[::-1], expand_right_min_val[::-1]))
-        expand_right_max = np.vstack((expand_right_max_pos[::-1], expand_right_max_val[::-1]))
-
-        max_extrema = np.hstack((expand_left_max, max_extrema, expand_right_max))
-        min_extrema = np.hstack((expand_left_min, min_extrema, expand_right_min))
-
-        return max_extrema, min_extrema
-
-    def prepare_points_simple(
-        self,
-        T: np.ndarray,
-        S: np.ndarray,
-        max_pos: np.ndarray,
-        max_val: Optional[np.ndarray],
-        min_pos: np.ndarray,
-        min_val: Optional[np.ndarray],
-    ) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Performs mirroring on signal which extrema can be indexed on
-        the position array.
-
-        See :meth:`EMD.prepare_points`.
-        """
-
-        # Find indexes of pass
-        ind_min = min_pos.astype(int)
-        ind_max = max_pos.astype(int)
-
-        # Local variables
-        nbsym = self.nbsym
-        end_min, end_max = len(min_pos), len(max_pos)
-
-        ####################################
-        # Left bound - mirror nbsym points to the left
-        if ind_max[0] < ind_min[0]:
-            if S[0] > S[ind_min[0]]:
-                lmax = ind_max[1 : min(end_max, nbsym + 1)][::-1]
-                lmin = ind_min[0 : min(end_min, nbsym + 0)][::-1]
-                lsym = ind_max[0]
-            else:
-                lmax = ind_max[0 : min(end_max, nbsym)][::-1]
-                lmin = np.append(ind_min[0 : min(end_min, nbsym - 1)][::-1], 0)
-                lsym = 0
-        else:
-            if S[0] < S[ind_max[0]]:
-                lmax = ind_max[0 : min(end_max, nbsym + 0)][::-1]
-                lmin = ind_min[1 : min(end_min, nbsym + 1)][::-1]
-                lsym = ind_min[0]
-            else:
-                lmax = np.append(ind_max[0 : min(end_max, nbsym - 1)][::-1], 0)
-                lmin = ind_min[0 : min(end_min, nbsym)][::-1]
-                lsym = 0
-
-        ####################################
-        # Right bound - mirror nbsym points to the right
-        if ind_max[-1] < ind_min[-1]:
-            if S[-1] < S[ind_max[-1]]:
-                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
-                rmin = ind_min[max(end_min - nbsym - 1, 0) : -1][::-1]
-                rsym = ind_min[-1]
-            else:
-                rmax = np.append(ind_max[max(end_max - nbsym + 1, 0) :], len(S) - 1)[::-1]
-                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
-                rsym = len(S) - 1
-        else:
-            if S[-1] > S[ind_min[-1]]:
-                rmax = ind_max[max(end_max - nbsym - 1, 0) : -1][::-1]
-                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
-                rsym = ind_max[-1]
-            else:
-                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
-                rmin = np.append(ind_min[max(end_min - nbsym + 1, 0) :], len(S) - 1)[::-1]
-                rsym = len(S) - 1
-
-        # In case any array missing
-        if not lmin.size:
-            lmin = ind_min
-        if not rmin.size:
-            rmin = ind_min
-        if not lmax.size:
-            lmax = ind_max
-        if not rmax.size:
-            rmax = ind_max
-
-        # Mirror points
-        tlmin = 2 * T[lsym] - T[lmin]
-        tlmax = 2 * T[lsym] - T[lmax]
-        trmin = 2 * T[rsym] - T[rmin]
-        trmax = 2 * T[rsym] - T[rmax]
-
-        # If mirrored points are not outside passed time range.
-        if tlmin[0] > T[0] or tlmax[0] > T[0]:
-            if lsym == ind_max[0]:
-                lmax = ind_max[0 : min(end_max, nbsym)][::-1]
-            else:
-                lmin = ind_min[0 : min(end_min, nbsym)][::-1]
-
-            if lsym == 0:
-                raise Exception("Left edge BUG")
-
-            lsym = 0
-            tlmin = 2 * T[lsym] - T[lmin]
-            tlmax = 2 * T[lsym] - T[lmax]
-
-        if trmin[-1] < T[-1] or trmax[-1] < T[-1]:
-            if rsym == ind_max[-1]:
-                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
-            else:
-                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
-
-            if rsym == len(S) - 1:
-                raise Exception("Right edge BUG")
-
-            rsym = len(S) - 1
-            trmin = 2 * T[rsym] - T[rmin]
-            trmax = 2 * T[rsym] - T[rmax]
-
-        zlmax = S[lmax]
-        zlmin = S[lmin]
-        zrmax = S[rmax]
-        zrmin = S[rmin]
-
-        tmin = np.concatenate((tlmin, T[ind_min], trmin))
-        tmax = np.concatenate((tlmax, T[ind_max], trmax))
-        zmin = np.concatenate((zlmin, S[ind_min], zrmin))
-        zmax = np.concatenate((zlmax, S[ind_max], zrmax))
-
-        max_extrema = np.array([tmax, zmax])
-        min_extrema = np.array([tmin, zmin])
-
-        # Make double sure, that each extremum is significant
-        max_dup_idx = np.where(max_extrema[0, 1:] == max_extrema[0, :-1])
-        max_extrema = np.delete(max_extrema, max_dup_idx, axis=1)
-        min_dup_idx = np.where(min_extrema[0, 1:] == min_extrema[0, :-1])
-        min_extrema = np.delete(min_extrema, min_dup_idx, axis=1)
-
-        return max_extrema, min_extrema
-
-    def spline_points(self, T: np.ndarray, extrema: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Constructs spline over given points.
-
-        Parameters
-        ----------
-        T : numpy array
-            Position or time array.
-        extrema : numpy array
-            Position (1st row) and values (2nd row) of points.
-
-        Returns
-        -------
-        T : numpy array
-            Position array (same as input).
-        spline : numpy array
-            Spline array over given positions T.
-        """
-
-        kind = self.spline_kind.lower()
-        t = T[(T >= extrema[0, 0]) & (T <= extrema[0, -1])]
-
-        if kind == "akima":
-            return t, akima(extrema[0], extrema[1], t)
-
-        elif kind == "cubic":
-            if extrema.shape[1] > 3:
-                return t, cubic(extrema[0], extrema[1], t)
-            else:
-                return cubic_spline_3pts(extrema[0], extrema[1], t)
-
-        elif kind == "pchip":
-            return t, pchip(extrema[0], extrema[1], t)
-
-        elif kind == "cubic_hermite":
-            return t, cubic_hermite(extrema[0], extrema[1], t)
-
-        elif kind in ["slinear", "quadratic", "linear"]:
-            return T, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)
-
-        else:
-            raise ValueError("No such interpolation method!")
-
-    @staticmethod
-    def _not_duplicate(S: np.ndarray) -> np.ndarray:
-        """
-        Returns indices for not repeating values, where there is no extremum.
-
-        Example
-        -------
-        >>> S = [0, 1, 1, 1, 2, 3]
-        >>> idx = self._not_duplicate(S)
-        [0, 1, 3, 4, 5]
-        """
-        dup = (S[1:-1] == S[0:-2]) & (S[1:-1] == S[2:])
-        not_dup_idx = np.arange(1, len(S) - 1)[~dup]
-
-        idx = np.empty(len(not_dup_idx) + 2, dtype=np.int64)
-        idx[0] = 0
-        idx[-1] = len(S) - 1
-        idx[1:-1] = not_dup_idx
-
-        return idx
-
-    def find_extrema(self, T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
-        """
-        Returns extrema (minima and maxima) for given signal S.
-        Detection and definition of the extrema depends on
-        ``extrema_detection`` variable, set on initiation of EMD.
-
-        Parameters
-        ----------
-        T : numpy array
-            Position or time array.
-        S : numpy array
-            Input data S(T).
-
-        Returns
-        -------
-        local_max_pos : numpy array
-            Position of local maxima.
-        local_max_val : numpy array
-            Values of local maxima.
-        local_min_pos : numpy array
-            Position of local minima.
-        local_min_val : numpy array
-            Values of local minima.
-        """
-        if self.extrema_detection == "parabol":
-            return self._find_extrema_parabol(T, S)
-        elif self.extrema_detection == "simple":
-            return self._find_extrema_simple(T, S)
-        else:
-            raise ValueError("Incorrect extrema detection type. Please try: 'simple' or 'parabol'.")
-
-    def _find_extrema_parabol(self, T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
-        """
-        Performs parabol estimation of extremum, i.e. an extremum is a peak
-        of parabol spanned on 3 consecutive points, where the mid point is
-        the closest.
-
-        See :meth:`EMD.find_extrema()`.
-        """
-        # Finds indexes of zero-crossings
-        S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
-        if np.any(S == 0):
-            indz = np.nonzero(S == 0)[0]
-            if np.any(np.diff(indz) == 1):
-                zer = S == 0
-                dz = np.diff(np.append(np.append(0, zer), 0))
-                debz = np.nonzero(dz == 1)[0]
-                finz = np.nonzero(dz == -1)[0] - 1
-                indz = np.round((debz + finz) / 2.0)
-
-            indzer = np.sort(np.append(indzer, indz))
-
-        dt = float(T[1] - T[0])
-        scale = 2.0 * dt * dt
-
-        idx = self._not_duplicate(S)
-        T = T[idx]
-        S = S[idx]
-
-        # p - previous
-        # 0 - current
-        # n - next
-        Tp, T0, Tn = T[:-2], T[1:-1], T[2:]
-        Sp, S0, Sn = S[:-2], S[1:-1], S[2:]
-        # a = Sn + Sp - 2*S0
-        # b = 2*(Tn+Tp)*S0 - ((Tn+T0)*Sp+(T0+Tp)*Sn)
-        # c = Sp*T0*Tn -2*Tp*S0*Tn + Tp*T0*Sn
-        TnTp, T0Tn, TpT0 = Tn - Tp, T0 - Tn, Tp - T0
-        scale = Tp * Tn * Tn + Tp * Tp * T0 + T0 * T0 * Tn - Tp * Tp * Tn - Tp * T0 * T0 - T0 * Tn * Tn
-
-        a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
-        b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
-        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn
-
-        a = a / scale
-        b = b / scale
-        c = c / scale
-        a[a == 0] = 1e-14
-        tVertex = -0.5 * b / a
-        idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
-
-        a, b, c = a[idx], b[idx], c[idx]
-        tVertex = tVertex[idx]
-        sVertex = a * tVertex * tVertex + b * tVertex + c
-
-        local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
-        local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
-
-        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer
-
-    @staticmethod
-    def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
-        """
-        Performs extrema detection, where extremum is defined as a point,
-        that is above/below its neighbours.
-
-        See :meth:`EMD.find_extrema`.
-        """
-
-        # Finds indexes of zero-crossings
-        S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
-        if np.any(S == 0):
-            indz = np.nonzero(S == 0)[0]
-            if np.any(np.diff(indz) == 1):
-                zer = S == 0
-                dz = np.diff(np.concatenate(([0], zer, [0])))
-                debz = np.nonzero(dz == 1)[0]
-                finz = np.nonzero(dz == -1)[0] - 1
-                indz = np.round((debz + finz) / 2.0)
-
-            indzer = np.sort(np.append(indzer, indz))
-
-        # Finds local extrema
-        d = np.diff(S)
-        d1, d2 = d[:-1], d[1:]
-        sign_change = d1 * d2 < 0
-        indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
-        indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1
-
-        # When two or more points have the same value (flat plateaus)
-        if np.any(d == 0):
-            bad = d == 0
-            dd = np.diff(np.concatenate(([0], bad, [0])))
-            debs = np.nonzero(dd == 1)[0]
-            fins = np.nonzero(dd == -1)[0]
-
-            if len(debs) > 0 and debs[0] == 0:
-                if len(debs) > 1:
-                    debs, fins = debs[1:], fins[1:]
-                else:
-                    debs, fins = (
-                        np.array([], dtype=np.intp),
-                        np.array([], dtype=np.intp),
-                    )
-
-            if len(debs) > 0 and fins[-1] == len(S) - 1:
-                if len(debs) > 1:
-                    debs, fins = debs[:-1], fins[:-1]
-                else:
-                    debs, fins = (
-                        np.array([], dtype=np.intp),
-                        np.array([], dtype=np.intp),
-                    )
-
-            if len(debs) > 0:
-                d_before = d[debs - 1]
-                d_after = d[fins]
-                midpoints = np.round((fins + debs) / 2.0).astype(np.intp)
-
-                # Maxima: rising before plateau, falling after
-                max_mask = (d_before > 0) & (d_after < 0)
-                # Minima: falling before plateau, rising after
-                min_mask = (d_before < 0) & (d_after > 0)
-
-                if np.any(max_mask):
-                    indmax = np.sort(np.concatenate([indmax, midpoints[max_mask]]))
-                if np.any(min_mask):
-                    indmin = np.sort(np.concatenate([indmin, midpoints[min_mask]]))
-
-        local_max_pos = T[indmax]
-        local_max_val = S[indmax]
-        local_min_pos = T[indmin]
-        local_min_val = S[indmin]
-
-        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer
-
-    def end_condition(self, S: np.ndarray, IMF: np.ndarray) -> bool:
-        """Tests for end condition of whole EMD. The procedure will stop if:
-
-        * Absolute amplitude (max - min) is below *range_thr* threshold, or
-        * Metric L1 (mean absolute difference) is below *total_power_thr* threshold.
-
-        Parameters
-        ----------
-        S : numpy array
-            Original signal on which EMD was performed.
-        IMF : numpy 2D array
-            Set of IMFs where each row is IMF. Their order is not important.
-
-        Returns
-        -------
-        end : bool
-            Whether sifting is finished.
-        """
-        # When to stop EMD
-        tmp = S - np.sum(IMF, axis=0)
-
-        if np.max(tmp) - np.min(tmp) < self.range_thr:
-            self.logger.debug("FINISHED -- RANGE")
-            return True
-
-        if np.sum(np.abs(tmp)) < self.total_power_thr:
-            self.logger.debug("FINISHED -- SUM POWER")
-            return True
-
-        return False
-
-    def check_imf(
-        self,
-        imf_new: np.ndarray,
-        imf_old: np.ndarray,
-        eMax: np.ndarray,
-        eMin: np.ndarray,
-    ) -> bool:
-        """
-        Huang criteria for **IMF** (similar to Cauchy convergence test).
-        Signal is an IMF if consecutive siftings do not affect signal
-        in a significant manner.
-        """
-        # local max are >0 and local min are <0
-        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):
-            return False
-
-        # Convergence
-        if np.sum(imf_new**2) < 1e-10:
-            return False
-
-        # Precompute values
-        imf_diff = imf_new - imf_old
-        imf_diff_sqrd_sum = np.sum(imf_diff * imf_diff)
-
-        # Scaled variance test
-        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old))
-        if svar < self.svar_thr:
-            self.logger.debug("Scaled variance -- PASSED")
-            return True
-
-        # Standard deviation test
-        std = np.sum((imf_diff / imf_new) ** 2)
-        if std < self.std_thr:
-            self.logger.debug("Standard deviation -- PASSED")
-            return True
-
-        energy_ratio = imf_diff_sqrd_sum / np.sum(imf_old * imf_old)
-        if energy_ratio < self.energy_ratio_thr:
-            self.logger.debug("Energy ratio -- PASSED")
-            return True
-
-        return False
-
-    @staticmethod
-    def _normalize_time(t: np.ndarray) -> np.ndarray:
-        """
-        Normalize time array so that it doesn't explode on tiny values.
-        Returned array starts with 0 and the smallest increase is by 1.
-        """
-        d = np.diff(t)
-        assert np.all(d != 0), "All time domain values needs to be unique"
-        return (t - t[0]) / np.min(d)
-
-    def emd(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
-        """
-        Performs Empirical Mode Decomposition on signal S.
-        The decomposition is limited to *max_imf* imfs.
-        Returns IMF functions and residue in a single numpy array format.
-
-        Parameters
-        ----------
-        S : numpy array,
-            Input signal.
-        T : numpy array, (default: None)
-            Position or time array. If None is passed or self.extrema_detection == "simple",
-            then numpy range is created.
-        max_imf : int, (default: -1)
-            IMF number to which decomposition should be performed.
-            Negative value means *all*.
-
-        Returns
-        -------
-        IMFs and residue : numpy array
-            A numpy array which cointains both the IMFs and residual, if any, appended as
-            the last slice.
-        """
-        if T is not None and len(S) != len(T):
-            raise ValueError("Time series have different sizes: len(S) -> {} != {} <- len(T)".format(len(S), len(T)))
-
-        if T is None or self.extrema_detection == "simple":
-            T = get_timeline(len(S), S.dtype)
-
-        # Normalize T so that it doesn't explode
-        T = self._normalize_time(T)
-
-        # Make sure same types are dealt
-        S, T = unify_types(S, T)
-        self.DTYPE = S.dtype
-        N = len(S)
-
-        residue = S.astype(self.DTYPE)
-        imf = np.zeros(len(S), dtype=self.DTYPE)
-        imf_old = np.nan
-
-        if S.shape != T.shape:
-            raise ValueError("Position or time array should be the same size as signal.")
-
-        # Create arrays
-        imfNo = 0
-        extNo = -1
-        IMF = np.empty((imfNo, N))  # Numpy container for IMF
-        finished = False
-
-        while not finished:
-            self.logger.debug("IMF -- %s", imfNo)
-
-            residue[:] = S - np.sum(IMF[:imfNo], axis=0)
-            imf = residue.copy()
-            mean = np.zeros(len(S), dtype=self.DTYPE)
-
-            # Counters
-            n = 0  # All iterations for current imf.
-            n_h = 0  # counts when |#zero - #ext| <=1
-
-            while True:
-                n += 1
-                if n >= self.MAX_ITERATION:
-                    self.logger.info("Max iterations reached for IMF. Continuing with another IMF.")
-                    break
-
-                ext_res = self.find_extrema(T, imf)
-                max_pos, min_pos, indzer = ext_res[0], ext_res[2], ext_res[4]
-                extNo = len(min_pos) + len(max_pos)
-                nzm = len(indzer)
-
-                if extNo > 2:
-                    max_env, min_env, eMax, eMin = self.extract_max_min_spline(T, imf)
-                    mean[:] = 0.5 * (max_env + min_env)
-
-                    imf_old = imf.copy()
-                    imf[:] = imf - mean
-
-                    # Fix number of iterations
-                    if self.FIXE:
-                        if n >= self.FIXE:
-                            break
-
-                    # Fix number of iterations after number of zero-crossings
-                    # and extrema differ at most by one.
-                    elif self.FIXE_H:
-                        tmp_residue = self.find_extrema(T, imf)
-                        max_pos, min_pos, ind_zer = (
-                            tmp_residue[0],
-                            tmp_residue[2],
-                            tmp_residue[4],
-                        )
-                        extNo = len(max_pos) + len(min_pos)
-                        nzm = len(ind_zer)
-
-                        if n == 1:
-                            continue
-
-                        # If proto-IMF add one, or reset counter otherwise
-                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0
-
-                        # STOP
-                        if n_h >= self.FIXE_H:
-                            break
-
-                    # Stops after default stopping criteria are met
-                    else:
-                        ext_res = self.find_extrema(T, imf)
-                        max_pos, _, min_pos, _, ind_zer = ext_res
-                        extNo = len(max_pos) + len(min_pos)
-                        nzm = len(ind_zer)
-
-                        if imf_old is np.nan:
-                            continue
-
-                        f1 = self.check_imf(imf, imf_old, eMax, eMin)
-                        f2 = abs(extNo - nzm) < 2
-
-                        # STOP
-                        if f1 and f2:
-                            break
-
-                else:  # Less than 2 ext, i.e. trend
-                    finished = True
-                    break
-            # END OF IMF SIFTING
-
-            IMF = np.vstack((IMF, imf.copy()))
-            imfNo += 1
-
-            if self.end_condition(S, IMF) or imfNo == max_imf:
-                finished = True
-                break
-
-        # If the last sifting had 2 or less extrema then that's a trend (residue)
-        if extNo <= 2:
-            IMF = IMF[:-1]
-
-        # Saving imfs and residue for external references
-        self.imfs = IMF.copy()
-        self.residue = S - np.sum(self.imfs, axis=0)
-
-        # If residue isn't 0 then add it to the output
-        if not np.allclose(self.residue, 0):
-            IMF = np.vstack((IMF, self.residue))
-
-        return IMF
-
-    def get_imfs_and_residue(self) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Provides access to separated imfs and residue from recently analysed signal.
-
-        Returns
-        -------
-        imfs : np.ndarray
-            Obtained IMFs
-        residue : np.ndarray
-            Residue.
-
-        """
-        if self.imfs is None or self.residue is None:
-            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
-        return self.imfs, self.residue
-
-    def get_imfs_and_trend(self) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Provides access to separated imfs and trend from recently analysed signal.
-        Note that this may differ from the `get_imfs_and_residue` as the trend isn't
-        necessarily the residue. Residue is a point-wise difference between input signal
-        and all obtained components, whereas trend is the slowest component (can be zero).
-
-        Returns
-        -------
-        imfs : np.ndarray
-            Obtained IMFs
-        trend : np.ndarray
-            The main trend.
-
-        """
-        if self.imfs is None or self.residue is None:
-            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
-
-        imfs, residue = self.get_imfs_and_residue()
-        if len(imfs) > 0 and np.allclose(residue, 0):
-            return imfs[:-1].copy(), imfs[-1].copy()
-        else:
-            return imfs, residue
-
-
-###################################################
-
-
-if __name__ == "__main__":
-    import pylab as plt
-
-    # Logging options
-    logging.basicConfig(level=logging.DEBUG)
-
-    # EMD options
-    max_imf = -1
-    DTYPE = np.float64
-
-    # Signal options
-    N = 400
-    tMin, tMax = 0, 2 * np.pi
-    T = np.linspace(tMin, tMax, N, dtype=DTYPE)
-
-    S = np.sin(20 * T * (1 + 0.2 * T)) + T**2 + np.sin(13 * T)
-    S = S.astype(DTYPE)
-    print("Input S.dtype: " + str(S.dtype))
-
-    # Prepare and run EMD
-    emd = EMD()
-    emd.FIXE_H = 5
-    emd.nbsym = 2
-    emd.spline_kind = "cubic"
-    emd.DTYPE = DTYPE
-
-    imfs = emd.emd(S, T, max_imf)
-    imfNo = imfs.shape[0]
-
-    # Plot results
-    c = 1
-    r = np.ceil((imfNo + 1) / c)
-
-    plt.ioff()
-    plt.subplot(r, c, 1)
-    plt.plot(T, S, "r")
-    plt.xlim((tMin, tMax))
-    plt.title("Original signal")
-
-    for num in range(imfNo):
-        plt.subplot(r, c, num + 2)
-        plt.plot(T, imfs[num], "g")
-        plt.xlim((tMin, tMax))
-        plt.ylabel("Imf " + str(num + 1))
-
-    plt.tight_layout()
-    plt.show()
+#!/usr/bin/python
+# coding: UTF-8
+#
+# Author:   Dawid Laszuk
+# Contact:  https://github.com/laszukdawid/PyEMD/issues
+#
+# Feel free to contact for any information.
+
+import logging
+from typing import Optional, Tuple
+
+import numpy as np
+from scipy.interpolate import interp1d
+
+from PyEMD.splines import akima, cubic, cubic_hermite, cubic_spline_3pts, pchip
+from PyEMD.utils import get_timeline, unify_types
+
+FindExtremaOutput = Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray, np.ndarray]
+
+
+class EMD:
+    """
+    .. _EMD:
+
+    **Empirical Mode Decomposition**
+
+    Method of decomposing signal into Intrinsic Mode Functions (IMFs)
+    based on algorithm presented in Huang et al. [Huang1998]_.
+
+    Algorithm was validated with Rilling et al. [Rilling2003]_ Matlab's version from 3.2007.
+
+    Threshold which control the goodness of the decomposition:
+        * `std_thr` --- Test for the proto-IMF how variance changes between siftings.
+        * `svar_thr` -- Test for the proto-IMF how energy changes between siftings.
+        * `total_power_thr` --- Test for the whole decomp how much of energy is solved.
+        * `range_thr` --- Test for the whole decomp whether the difference is tiny.
+
+
+    References
+    ----------
+    .. [Huang1998] N. E. Huang et al., "The empirical mode decomposition and the
+        Hilbert spectrum for non-linear and non stationary time series
+        analysis", Proc. Royal Soc. London A, Vol. 454, pp. 903-995, 1998
+    .. [Rilling2003] G. Rilling, P. Flandrin and P. Goncalves, "On Empirical Mode
+        Decomposition and its algorithms", IEEE-EURASIP Workshop on
+        Nonlinear Signal and Image Processing NSIP-03, Grado (I), June 2003
+
+    Examples
+    --------
+    >>> import numpy as np
+    >>> T = np.linspace(0, 1, 100)
+    >>> S = np.sin(2*2*np.pi*T)
+    >>> emd = EMD(extrema_detection='parabol')
+    >>> IMFs = emd.emd(S)
+    >>> IMFs.shape
+    (1, 100)
+    """
+
+    logger = logging.getLogger(__name__)
+
+    def __init__(self, spline_kind: str = "cubic", nbsym: int = 2, **kwargs):
+        """Initiate *EMD* instance.
+
+        Configuration, such as threshold values, can be passed as kwargs (keyword arguments).
+
+        Parameters
+        ----------
+        FIXE : int (default: 0)
+        FIXE_H : int (default: 0)
+        MAX_ITERATION : int (default 1000)
+            Maximum number of iterations per single sifting in EMD.
+        energy_ratio_thr : float (default: 0.2)
+            Threshold value on energy ratio per IMF check.
+        std_thr float : (default 0.2)
+            Threshold value on standard deviation per IMF check.
+        svar_thr float : (default 0.001)
+            Threshold value on scaled variance per IMF check.
+        total_power_thr : float (default 0.005)
+            Threshold value on total power per EMD decomposition.
+        range_thr : float (default 0.001)
+            Threshold for amplitude range (after scaling) per EMD decomposition.
+        extrema_detection : str (default 'simple')
+            Method used to finding extrema.
+        DTYPE : np.dtype (default np.float64)
+            Data type used.
+
+        Examples
+        --------
+        >>> emd = EMD(std_thr=0.01, range_thr=0.05)
+
+        """
+        # Declare constants
+        self.energy_ratio_thr = float(kwargs.get("energy_ratio_thr", 0.2))
+        self.std_thr = float(kwargs.get("std_thr", 0.2))
+        self.svar_thr = float(kwargs.get("svar_thr", 0.001))
+        self.total_power_thr = float(kwargs.get("total_power_thr", 0.005))
+        self.range_thr = float(kwargs.get("range_thr", 0.001))
+
+        self.nbsym = int(kwargs.get("nbsym", nbsym))
+        self.scale_factor = float(kwargs.get("scale_factor", 1.0))
+
+        self.spline_kind = spline_kind
+        self.extrema_detection = kwargs.get("extrema_detection", "simple")  # simple, parabol
+        assert self.extrema_detection in (
+            "simple",
+            "parabol",
+        ), "Only 'simple' and 'parabol' values supported"
+
+        self.DTYPE = kwargs.get("DTYPE", np.float64)
+        self.FIXE = int(kwargs.get("FIXE", 0))
+        self.FIXE_H = int(kwargs.get("FIXE_H", 0))
+
+        self.MAX_ITERATION = int(kwargs.get("MAX_ITERATION", 1000))
+
+        # Instance global declaration
+        self.imfs = None  # Optional[np.ndarray]
+        self.residue = None  # Optional[np.ndarray]
+
+    def __call__(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
+        return self.emd(S, T=T, max_imf=max_imf)
+
+    def extract_max_min_spline(
+        self, T: np.ndarray, S: np.ndarray
+    ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
+        """
+        Extracts top and bottom envelopes based on the signal,
+        which are constructed based on maxima and minima, respectively.
+
+        Parameters
+        ----------
+        T : numpy array
+            Position or time array.
+        S : numpy array
+            Input data S(T).
+
+        Returns
+        -------
+        max_spline : numpy array
+            Spline spanned on S maxima.
+        min_spline : numpy array
+            Spline spanned on S minima.
+        max_extrema : numpy array
+            Points indicating local maxima.
+        min_extrema : numpy array
+            Points indicating local minima.
+        """
+
+        # Get indexes of extrema
+        ext_res = self.find_extrema(T, S)
+        max_pos, max_val = ext_res[0], ext_res[1]
+        min_pos, min_val = ext_res[2], ext_res[3]
+
+        if len(max_pos) + len(min_pos) < 3:
+            return [-1] * 4  # TODO: Fix this. Doesn't match the signature.
+
+        #########################################
+        # Extrapolation of signal (over boundaries)
+        max_extrema, min_extrema = self.prepare_points(T, S, max_pos, max_val, min_pos, min_val)
+
+        _, max_spline = self.spline_points(T, max_extrema)
+        _, min_spline = self.spline_points(T, min_extrema)
+
+        return max_spline, min_spline, max_extrema, min_extrema
+
+    def prepare_points(
+        self,
+        T: np.ndarray,
+        S: np.ndarray,
+        max_pos: np.ndarray,
+        max_val: np.ndarray,
+        min_pos: np.ndarray,
+        min_val: np.ndarray,
+    ):
+        """
+        Performs extrapolation on edges by adding extra extrema, also known
+        as mirroring signal. The number of added points depends on *nbsym*
+        variable.
+
+        Parameters
+        ----------
+        T : numpy array
+            Position or time array.
+        S : numpy array
+            Input signal.
+        max_pos : iterable
+            Sorted time positions of maxima.
+        max_val : iterable
+            Signal values at max_pos positions.
+        min_pos : iterable
+            Sorted time positions of minima.
+        min_val : iterable
+            Signal values at min_pos positions.
+
+        Returns
+        -------
+        max_extrema : numpy array (2 rows)
+            Position (1st row) and values (2nd row) of minima.
+        min_extrema : numpy array (2 rows)
+            Position (1st row) and values (2nd row) of maxima.
+        """
+        if self.extrema_detection == "parabol":
+            return self.prepare_points_parabol(T, S, max_pos, max_val, min_pos, min_val)
+        elif self.extrema_detection == "simple":
+            return self.prepare_points_simple(T, S, max_pos, max_val, min_pos, min_val)
+        else:
+            msg = "Incorrect extrema detection type. Please try: 'simple' or 'parabol'."
+            raise ValueError(msg)
+
+    def prepare_points_parabol(self, T, S, max_pos, max_val, min_pos, min_val) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Performs mirroring on signal which extrema do not necessarily
+        belong on the position array.
+
+        See :meth:`EMD.prepare_points`.
+        """
+
+        # Need at least two extrema to perform mirroring
+        max_extrema = np.zeros((2, len(max_pos)), dtype=self.DTYPE)
+        min_extrema = np.zeros((2, len(min_pos)), dtype=self.DTYPE)
+
+        max_extrema[0], min_extrema[0] = max_pos, min_pos
+        max_extrema[1], min_extrema[1] = max_val, min_val
+
+        # Local variables
+        nbsym = self.nbsym
+        end_min, end_max = len(min_pos), len(max_pos)
+
+        ####################################
+        # Left bound
+        d_pos = max_pos[0] - min_pos[0]
+        left_ext_max_type = d_pos < 0  # True -> max, else min
+
+        # Left extremum is maximum
+        if left_ext_max_type:
+            if (S[0] > min_val[0]) and (np.abs(d_pos) > (max_pos[0] - T[0])):
+                # mirror signal to first extrema
+                expand_left_max_pos = 2 * max_pos[0] - max_pos[1 : nbsym + 1]
+                expand_left_min_pos = 2 * max_pos[0] - min_pos[0:nbsym]
+                expand_left_max_val = max_val[1 : nbsym + 1]
+                expand_left_min_val = min_val[0:nbsym]
+            else:
+                # mirror signal to beginning
+                expand_left_max_pos = 2 * T[0] - max_pos[0:nbsym]
+                expand_left_min_pos = 2 * T[0] - np.append(T[0], min_pos[0 : nbsym - 1])
+                expand_left_max_val = max_val[0:nbsym]
+                expand_left_min_val = np.append(S[0], min_val[0 : nbsym - 1])
+
+        # Left extremum is minimum
+        else:
+            if (S[0] < max_val[0]) and (np.abs(d_pos) > (min_pos[0] - T[0])):
+                # mirror signal to first extrema
+                expand_left_max_pos = 2 * min_pos[0] - max_pos[0:nbsym]
+                expand_left_min_pos = 2 * min_pos[0] - min_pos[1 : nbsym + 1]
+                expand_left_max_val = max_val[0:nbsym]
+                expand_left_min_val = min_val[1 : nbsym + 1]
+            else:
+                # mirror signal to beginning
+                expand_left_max_pos = 2 * T[0] - np.append(T[0], max_pos[0 : nbsym - 1])
+                expand_left_min_pos = 2 * T[0] - min_pos[0:nbsym]
+                expand_left_max_val = np.append(S[0], max_val[0 : nbsym - 1])
+                expand_left_min_val = min_val[0:nbsym]
+
+        if not expand_left_min_pos.shape:
+            expand_left_min_pos, expand_left_min_val = min_pos, min_val
+        if not expand_left_max_pos.shape:
+            expand_left_max_pos, expand_left_max_val = max_pos, max_val
+
+        expand_left_min = np.vstack((expand_left_min_pos[::-1], expand_left_min_val[::-1]))
+        expand_left_max = np.vstack((expand_left_max_pos[::-1], expand_left_max_val[::-1]))
+
+        ####################################
+        # Right bound
+        d_pos = max_pos[-1] - min_pos[-1]
+        right_ext_max_type = d_pos > 0
+
+        # Right extremum is maximum
+        if not right_ext_max_type:
+            if (S[-1] < max_val[-1]) and (np.abs(d_pos) > (T[-1] - min_pos[-1])):
+                # mirror signal to last extrema
+                idx_max = max(0, end_max - nbsym)
+                idx_min = max(0, end_min - nbsym - 1)
+                expand_right_max_pos = 2 * min_pos[-1] - max_pos[idx_max:]
+                expand_right_min_pos = 2 * min_pos[-1] - min_pos[idx_min:-1]
+                expand_right_max_val = max_val[idx_max:]
+                expand_right_min_val = min_val[idx_min:-1]
+            else:
+                # mirror signal to end
+                idx_max = max(0, end_max - nbsym + 1)
+                idx_min = max(0, end_min - nbsym)
+                expand_right_max_pos = 2 * T[-1] - np.append(max_pos[idx_max:], T[-1])
+                expand_right_min_pos = 2 * T[-1] - min_pos[idx_min:]
+                expand_right_max_val = np.append(max_val[idx_max:], S[-1])
+                expand_right_min_val = min_val[idx_min:]
+
+        # Right extremum is minimum
+        else:
+            if (S[-1] > min_val[-1]) and len(max_pos) > 1 and (np.abs(d_pos) > (T[-1] - max_pos[-1])):
+                # mirror signal to last extremum
+                idx_max = max(0, end_max - nbsym - 1)
+                idx_min = max(0, end_min - nbsym)
+                expand_right_max_pos = 2 * max_pos[-1] - max_pos[idx_max:-1]
+                expand_right_min_pos = 2 * max_pos[-1] - min_pos[idx_min:]
+                expand_right_max_val = max_val[idx_max:-1]
+                expand_right_min_val = min_val[idx_min:]
+            else:
+                # mirror signal to end
+                idx_max = max(0, end_max - nbsym)
+                idx_min = max(0, end_min - nbsym + 1)
+                expand_right_max_pos = 2 * T[-1] - max_pos[idx_max:]
+                expand_right_min_pos = 2 * T[-1] - np.append(min_pos[idx_min:], T[-1])
+                expand_right_max_val = max_val[idx_max:]
+                expand_right_min_val = np.append(min_val[idx_min:], S[-1])
+
+        if not expand_right_min_pos.shape:
+            expand_right_min_pos, expand_right_min_val = min_pos, min_val
+        if not expand_right_max_pos.shape:
+            expand_right_max_pos, expand_right_max_val = max_pos, max_val
+
+        expand_right_min = np.vstack((expand_right_min_pos[::-1], expand_right_min_val[::-1]))
+        expand_right_max = np.vstack((expand_right_max_pos[::-1], expand_right_max_val[::-1]))
+
+        max_extrema = np.hstack((expand_left_max, max_extrema, expand_right_max))
+        min_extrema = np.hstack((expand_left_min, min_extrema, expand_right_min))
+
+        return max_extrema, min_extrema
+
+    def prepare_points_simple(
+        self,
+        T: np.ndarray,
+        S: np.ndarray,
+        max_pos: np.ndarray,
+        max_val: Optional[np.ndarray],
+        min_pos: np.ndarray,
+        min_val: Optional[np.ndarray],
+    ) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Performs mirroring on signal which extrema can be indexed on
+        the position array.
+
+        See :meth:`EMD.prepare_points`.
+        """
+
+        # Find indexes of pass
+        ind_min = min_pos.astype(int)
+        ind_max = max_pos.astype(int)
+
+        # Local variables
+        nbsym = self.nbsym
+        end_min, end_max = len(min_pos), len(max_pos)
+
+        ####################################
+        # Left bound - mirror nbsym points to the left
+        if ind_max[0] < ind_min[0]:
+            if S[0] > S[ind_min[0]]:
+                lmax = ind_max[1 : min(end_max, nbsym + 1)][::-1]
+                lmin = ind_min[0 : min(end_min, nbsym + 0)][::-1]
+                lsym = ind_max[0]
+            else:
+                lmax = ind_max[0 : min(end_max, nbsym)][::-1]
+                lmin = np.append(ind_min[0 : min(end_min, nbsym - 1)][::-1], 0)
+                lsym = 0
+        else:
+            if S[0] < S[ind_max[0]]:
+                lmax = ind_max[0 : min(end_max, nbsym + 0)][::-1]
+                lmin = ind_min[1 : min(end_min, nbsym + 1)][::-1]
+                lsym = ind_min[0]
+            else:
+                lmax = np.append(ind_max[0 : min(end_max, nbsym - 1)][::-1], 0)
+                lmin = ind_min[0 : min(end_min, nbsym)][::-1]
+                lsym = 0
+
+        ####################################
+        # Right bound - mirror nbsym points to the right
+        if ind_max[-1] < ind_min[-1]:
+            if S[-1] < S[ind_max[-1]]:
+                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
+                rmin = ind_min[max(end_min - nbsym - 1, 0) : -1][::-1]
+                rsym = ind_min[-1]
+            else:
+                rmax = np.append(ind_max[max(end_max - nbsym + 1, 0) :], len(S) - 1)[::-1]
+                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
+                rsym = len(S) - 1
+        else:
+            if S[-1] > S[ind_min[-1]]:
+                rmax = ind_max[max(end_max - nbsym - 1, 0) : -1][::-1]
+                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
+                rsym = ind_max[-1]
+            else:
+                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
+                rmin = np.append(ind_min[max(end_min - nbsym + 1, 0) :], len(S) - 1)[::-1]
+                rsym = len(S) - 1
+
+        # In case any array missing
+        if not lmin.size:
+            lmin = ind_min
+        if not rmin.size:
+            rmin = ind_min
+        if not lmax.size:
+            lmax = ind_max
+        if not rmax.size:
+            rmax = ind_max
+
+        # Mirror points
+        tlmin = 2 * T[lsym] - T[lmin]
+        tlmax = 2 * T[lsym] - T[lmax]
+        trmin = 2 * T[rsym] - T[rmin]
+        trmax = 2 * T[rsym] - T[rmax]
+
+        # If mirrored points are not outside passed time range.
+        if tlmin[0] > T[0] or tlmax[0] > T[0]:
+            if lsym == ind_max[0]:
+                lmax = ind_max[0 : min(end_max, nbsym)][::-1]
+            else:
+                lmin = ind_min[0 : min(end_min, nbsym)][::-1]
+
+            if lsym == 0:
+                raise Exception("Left edge BUG")
+
+            lsym = 0
+            tlmin = 2 * T[lsym] - T[lmin]
+            tlmax = 2 * T[lsym] - T[lmax]
+
+        if trmin[-1] < T[-1] or trmax[-1] < T[-1]:
+            if rsym == ind_max[-1]:
+                rmax = ind_max[max(end_max - nbsym, 0) :][::-1]
+            else:
+                rmin = ind_min[max(end_min - nbsym, 0) :][::-1]
+
+            if rsym == len(S) - 1:
+                raise Exception("Right edge BUG")
+
+            rsym = len(S) - 1
+            trmin = 2 * T[rsym] - T[rmin]
+            trmax = 2 * T[rsym] - T[rmax]
+
+        zlmax = S[lmax]
+        zlmin = S[lmin]
+        zrmax = S[rmax]
+        zrmin = S[rmin]
+
+        tmin = np.concatenate((tlmin, T[ind_min], trmin))
+        tmax = np.concatenate((tlmax, T[ind_max], trmax))
+        zmin = np.concatenate((zlmin, S[ind_min], zrmin))
+        zmax = np.concatenate((zlmax, S[ind_max], zrmax))
+
+        max_extrema = np.array([tmax, zmax])
+        min_extrema = np.array([tmin, zmin])
+
+        # Make double sure, that each extremum is significant
+        max_dup_idx = np.where(max_extrema[0, 1:] == max_extrema[0, :-1])
+        max_extrema = np.delete(max_extrema, max_dup_idx, axis=1)
+        min_dup_idx = np.where(min_extrema[0, 1:] == min_extrema[0, :-1])
+        min_extrema = np.delete(min_extrema, min_dup_idx, axis=1)
+
+        return max_extrema, min_extrema
+
+    def spline_points(self, T: np.ndarray, extrema: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Constructs spline over given points.
+
+        Parameters
+        ----------
+        T : numpy array
+            Position or time array.
+        extrema : numpy array
+            Position (1st row) and values (2nd row) of points.
+
+        Returns
+        -------
+        T : numpy array
+            Position array (same as input).
+        spline : numpy array
+            Spline array over given positions T.
+        """
+
+        kind = self.spline_kind.lower()
+        t = T[(T >= extrema[0, 0]) & (T <= extrema[0, -1])]
+
+        if kind == "akima":
+            return t, akima(extrema[0], extrema[1], t)
+
+        elif kind == "cubic":
+            if extrema.shape[1] > 3:
+                return t, cubic(extrema[0], extrema[1], t)
+            else:
+                return cubic_spline_3pts(extrema[0], extrema[1], t)
+
+        elif kind == "pchip":
+            return t, pchip(extrema[0], extrema[1], t)
+
+        elif kind == "cubic_hermite":
+            return t, cubic_hermite(extrema[0], extrema[1], t)
+
+        elif kind in ["slinear", "quadratic", "linear"]:
+            return T, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)
+
+        else:
+            raise ValueError("No such interpolation method!")
+
+    @staticmethod
+    def _not_duplicate(S: np.ndarray) -> np.ndarray:
+        """
+        Returns indices for not repeating values, where there is no extremum.
+
+        Example
+        -------
+        >>> S = [0, 1, 1, 1, 2, 3]
+        >>> idx = self._not_duplicate(S)
+        [0, 1, 3, 4, 5]
+        """
+        dup = (S[1:-1] == S[0:-2]) & (S[1:-1] == S[2:])
+        not_dup_idx = np.arange(1, len(S) - 1)[~dup]
+
+        idx = np.empty(len(not_dup_idx) + 2, dtype=np.int64)
+        idx[0] = 0
+        idx[-1] = len(S) - 1
+        idx[1:-1] = not_dup_idx
+
+        return idx
+
+    def find_extrema(self, T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
+        """
+        Returns extrema (minima and maxima) for given signal S.
+        Detection and definition of the extrema depends on
+        ``extrema_detection`` variable, set on initiation of EMD.
+
+        Parameters
+        ----------
+        T : numpy array
+            Position or time array.
+        S : numpy array
+            Input data S(T).
+
+        Returns
+        -------
+        local_max_pos : numpy array
+            Position of local maxima.
+        local_max_val : numpy array
+            Values of local maxima.
+        local_min_pos : numpy array
+            Position of local minima.
+        local_min_val : numpy array
+            Values of local minima.
+        """
+        if self.extrema_detection == "parabol":
+            return self._find_extrema_parabol(T, S)
+        elif self.extrema_detection == "simple":
+            return self._find_extrema_simple(T, S)
+        else:
+            raise ValueError("Incorrect extrema detection type. Please try: 'simple' or 'parabol'.")
+
+    def _find_extrema_parabol(self, T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
+        """
+        Performs parabol estimation of extremum, i.e. an extremum is a peak
+        of parabol spanned on 3 consecutive points, where the mid point is
+        the closest.
+
+        See :meth:`EMD.find_extrema()`.
+        """
+        # Finds indexes of zero-crossings
+        S1, S2 = S[:-1], S[1:]
+        indzer = np.nonzero(S1 * S2 < 0)[0]
+        if np.any(S == 0):
+            indz = np.nonzero(S == 0)[0]
+            if np.any(np.diff(indz) == 1):
+                zer = S == 0
+                dz = np.diff(np.append(np.append(0, zer), 0))
+                debz = np.nonzero(dz == 1)[0]
+                finz = np.nonzero(dz == -1)[0] - 1
+                indz = np.round((debz + finz) / 2.0)
+
+            indzer = np.sort(np.append(indzer, indz))
+
+        dt = float(T[1] - T[0])
+        scale = 2.0 * dt * dt
+
+        idx = self._not_duplicate(S)
+        T = T[idx]
+        S = S[idx]
+
+        # p - previous
+        # 0 - current
+        # n - next
+        Tp, T0, Tn = T[:-2], T[1:-1], T[2:]
+        Sp, S0, Sn = S[:-2], S[1:-1], S[2:]
+        # a = Sn + Sp - 2*S0
+        # b = 2*(Tn+Tp)*S0 - ((Tn+T0)*Sp+(T0+Tp)*Sn)
+        # c = Sp*T0*Tn -2*Tp*S0*Tn + Tp*T0*Sn
+        TnTp, T0Tn, TpT0 = Tn - Tp, T0 - Tn, Tp - T0
+        scale = Tp * Tn * Tn + Tp * Tp * T0 + T0 * T0 * Tn - Tp * Tp * Tn - Tp * T0 * T0 - T0 * Tn * Tn
+
+        a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
+        b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
+        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn
+
+        a = a / scale
+        b = b / scale
+        c = c / scale
+        a[a == 0] = 1e-14
+        tVertex = -0.5 * b / a
+        idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
+
+        a, b, c = a[idx], b[idx], c[idx]
+        tVertex = tVertex[idx]
+        sVertex = a * tVertex * tVertex + b * tVertex + c
+
+        local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
+        local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
+
+        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer
+
+    @staticmethod
+    def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
+        """
+        Performs extrema detection, where extremum is defined as a point,
+        that is above/below its neighbours.
+
+        See :meth:`EMD.find_extrema`.
+        """
+
+        # Finds indexes of zero-crossings
+        S1, S2 = S[:-1], S[1:]
+        indzer = np.nonzero(S1 * S2 < 0)[0]
+        if np.any(S == 0):
+            indz = np.nonzero(S == 0)[0]
+            if np.any(np.diff(indz) == 1):
+                zer = S == 0
+                dz = np.diff(np.concatenate(([0], zer, [0])))
+                debz = np.nonzero(dz == 1)[0]
+                finz = np.nonzero(dz == -1)[0] - 1
+                indz = np.round((debz + finz) / 2.0)
+
+            indzer = np.sort(np.append(indzer, indz))
+
+        # Finds local extrema
+        d = np.diff(S)
+        d1, d2 = d[:-1], d[1:]
+        sign_change = d1 * d2 < 0
+        indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
+        indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1
+
+        # When two or more points have the same value (flat plateaus)
+        if np.any(d == 0):
+            bad = d == 0
+            dd = np.diff(np.concatenate(([0], bad, [0])))
+            debs = np.nonzero(dd == 1)[0]
+            fins = np.nonzero(dd == -1)[0]
+
+            if len(debs) > 0 and debs[0] == 0:
+                if len(debs) > 1:
+                    debs, fins = debs[1:], fins[1:]
+                else:
+                    debs, fins = (
+                        np.array([], dtype=np.intp),
+                        np.array([], dtype=np.intp),
+                    )
+
+            if len(debs) > 0 and fins[-1] == len(S) - 1:
+                if len(debs) > 1:
+                    debs, fins = debs[:-1], fins[:-1]
+                else:
+                    debs, fins = (
+                        np.array([], dtype=np.intp),
+                        np.array([], dtype=np.intp),
+                    )
+
+            if len(debs) > 0:
+                d_before = d[debs - 1]
+                d_after = d[fins]
+                midpoints = np.round((fins + debs) / 2.0).astype(np.intp)
+
+                # Maxima: rising before plateau, falling after
+                max_mask = (d_before > 0) & (d_after < 0)
+                # Minima: falling before plateau, rising after
+                min_mask = (d_before < 0) & (d_after > 0)
+
+                if np.any(max_mask):
+                    indmax = np.sort(np.concatenate([indmax, midpoints[max_mask]]))
+                if np.any(min_mask):
+                    indmin = np.sort(np.concatenate([indmin, midpoints[min_mask]]))
+
+        local_max_pos = T[indmax]
+        local_max_val = S[indmax]
+        local_min_pos = T[indmin]
+        local_min_val = S[indmin]
+
+        return local_max_pos, local_max_val, local_min_pos, local_min_val, indzer
+
+    def end_condition(self, S: np.ndarray, IMF: np.ndarray) -> bool:
+        """Tests for end condition of whole EMD. The procedure will stop if:
+
+        * Absolute amplitude (max - min) is below *range_thr* threshold, or
+        * Metric L1 (mean absolute difference) is below *total_power_thr* threshold.
+
+        Parameters
+        ----------
+        S : numpy array
+            Original signal on which EMD was performed.
+        IMF : numpy 2D array
+            Set of IMFs where each row is IMF. Their order is not important.
+
+        Returns
+        -------
+        end : bool
+            Whether sifting is finished.
+        """
+        # When to stop EMD
+        tmp = S - np.sum(IMF, axis=0)
+
+        if np.max(tmp) - np.min(tmp) < self.range_thr:
+            self.logger.debug("FINISHED -- RANGE")
+            return True
+
+        if np.sum(np.abs(tmp)) < self.total_power_thr:
+            self.logger.debug("FINISHED -- SUM POWER")
+            return True
+
+        return False
+
+    def check_imf(
+        self,
+        imf_new: np.ndarray,
+        imf_old: np.ndarray,
+        eMax: np.ndarray,
+        eMin: np.ndarray,
+    ) -> bool:
+        """
+        Huang criteria for **IMF** (similar to Cauchy convergence test).
+        Signal is an IMF if consecutive siftings do not affect signal
+        in a significant manner.
+        """
+        # local max are >0 and local min are <0
+        if np.any(eMax[1] < 0) or np.any(eMin[1] > 0):
+            return False
+
+        # Convergence
+        if np.sum(imf_new**2) < 1e-10:
+            return False
+
+        # Precompute values
+        imf_diff = imf_new - imf_old
+        imf_diff_sqrd_sum = np.sum(imf_diff * imf_diff)
+
+        # Scaled variance test
+        svar = imf_diff_sqrd_sum / (max(imf_old) - min(imf_old))
+        if svar < self.svar_thr:
+            self.logger.debug("Scaled variance -- PASSED")
+            return True
+
+        # Standard deviation test
+        std = np.sum((imf_diff / imf_new) ** 2)
+        if std < self.std_thr:
+            self.logger.debug("Standard deviation -- PASSED")
+            return True
+
+        energy_ratio = imf_diff_sqrd_sum / np.sum(imf_old * imf_old)
+        if energy_ratio < self.energy_ratio_thr:
+            self.logger.debug("Energy ratio -- PASSED")
+            return True
+
+        return False
+
+    @staticmethod
+    def _normalize_time(t: np.ndarray) -> np.ndarray:
+        """
+        Normalize time array so that it doesn't explode on tiny values.
+        Returned array starts with 0 and the smallest increase is by 1.
+        """
+        d = np.diff(t)
+        assert np.all(d != 0), "All time domain values needs to be unique"
+        return (t - t[0]) / np.min(d)
+
+    def emd(self, S: np.ndarray, T: Optional[np.ndarray] = None, max_imf: int = -1) -> np.ndarray:
+        """
+        Performs Empirical Mode Decomposition on signal S.
+        The decomposition is limited to *max_imf* imfs.
+        Returns IMF functions and residue in a single numpy array format.
+
+        Parameters
+        ----------
+        S : numpy array,
+            Input signal.
+        T : numpy array, (default: None)
+            Position or time array. If None is passed or self.extrema_detection == "simple",
+            then numpy range is created.
+        max_imf : int, (default: -1)
+            IMF number to which decomposition should be performed.
+            Negative value means *all*.
+
+        Returns
+        -------
+        IMFs and residue : numpy array
+            A numpy array which cointains both the IMFs and residual, if any, appended as
+            the last slice.
+        """
+        if T is not None and len(S) != len(T):
+            raise ValueError("Time series have different sizes: len(S) -> {} != {} <- len(T)".format(len(S), len(T)))
+
+        if T is None or self.extrema_detection == "simple":
+            T = get_timeline(len(S), S.dtype)
+
+        # Normalize T so that it doesn't explode
+        T = self._normalize_time(T)
+
+        # Make sure same types are dealt
+        S, T = unify_types(S, T)
+        self.DTYPE = S.dtype
+        N = len(S)
+
+        residue = S.astype(self.DTYPE)
+        imf = np.zeros(len(S), dtype=self.DTYPE)
+        imf_old = np.nan
+
+        if S.shape != T.shape:
+            raise ValueError("Position or time array should be the same size as signal.")
+
+        # Create arrays
+        imfNo = 0
+        extNo = -1
+        IMF = np.empty((imfNo, N))  # Numpy container for IMF
+        finished = False
+
+        while not finished:
+            self.logger.debug("IMF -- %s", imfNo)
+
+            residue[:] = S - np.sum(IMF[:imfNo], axis=0)
+            imf = residue.copy()
+            mean = np.zeros(len(S), dtype=self.DTYPE)
+
+            # Counters
+            n = 0  # All iterations for current imf.
+            n_h = 0  # counts when |#zero - #ext| <=1
+
+            while True:
+                n += 1
+                if n >= self.MAX_ITERATION:
+                    self.logger.info("Max iterations reached for IMF. Continuing with another IMF.")
+                    break
+
+                ext_res = self.find_extrema(T, imf)
+                max_pos, min_pos, indzer = ext_res[0], ext_res[2], ext_res[4]
+                extNo = len(min_pos) + len(max_pos)
+                nzm = len(indzer)
+
+                if extNo > 2:
+                    max_env, min_env, eMax, eMin = self.extract_max_min_spline(T, imf)
+                    mean[:] = 0.5 * (max_env + min_env)
+
+                    imf_old = imf.copy()
+                    imf[:] = imf - mean
+
+                    # Fix number of iterations
+                    if self.FIXE:
+                        if n >= self.FIXE:
+                            break
+
+                    # Fix number of iterations after number of zero-crossings
+                    # and extrema differ at most by one.
+                    elif self.FIXE_H:
+                        tmp_residue = self.find_extrema(T, imf)
+                        max_pos, min_pos, ind_zer = (
+                            tmp_residue[0],
+                            tmp_residue[2],
+                            tmp_residue[4],
+                        )
+                        extNo = len(max_pos) + len(min_pos)
+                        nzm = len(ind_zer)
+
+                        if n == 1:
+                            continue
+
+                        # If proto-IMF add one, or reset counter otherwise
+                        n_h = n_h + 1 if abs(extNo - nzm) < 2 else 0
+
+                        # STOP
+                        if n_h >= self.FIXE_H:
+                            break
+
+                    # Stops after default stopping criteria are met
+                    else:
+                        ext_res = self.find_extrema(T, imf)
+                        max_pos, _, min_pos, _, ind_zer = ext_res
+                        extNo = len(max_pos) + len(min_pos)
+                        nzm = len(ind_zer)
+
+                        if imf_old is np.nan:
+                            continue
+
+                        f1 = self.check_imf(imf, imf_old, eMax, eMin)
+                        f2 = abs(extNo - nzm) < 2
+
+                        # STOP
+                        if f1 and f2:
+                            break
+
+                else:  # Less than 2 ext, i.e. trend
+                    finished = True
+                    break
+            # END OF IMF SIFTING
+
+            IMF = np.vstack((IMF, imf.copy()))
+            imfNo += 1
+
+            if self.end_condition(S, IMF) or imfNo == max_imf:
+                finished = True
+                break
+
+        # If the last sifting had 2 or less extrema then that's a trend (residue)
+        if extNo <= 2:
+            IMF = IMF[:-1]
+
+        # Saving imfs and residue for external references
+        self.imfs = IMF.copy()
+        self.residue = S - np.sum(self.imfs, axis=0)
+
+        # If residue isn't 0 then add it to the output
+        if not np.allclose(self.residue, 0):
+            IMF = np.vstack((IMF, self.residue))
+
+        return IMF
+
+    def get_imfs_and_residue(self) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Provides access to separated imfs and residue from recently analysed signal.
+
+        Returns
+        -------
+        imfs : np.ndarray
+            Obtained IMFs
+        residue : np.ndarray
+            Residue.
+
+        """
+        if self.imfs is None or self.residue is None:
+            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
+        return self.imfs, self.residue
+
+    def get_imfs_and_trend(self) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Provides access to separated imfs and trend from recently analysed signal.
+        Note that this may differ from the `get_imfs_and_residue` as the trend isn't
+        necessarily the residue. Residue is a point-wise difference between input signal
+        and all obtained components, whereas trend is the slowest component (can be zero).
+
+        Returns
+        -------
+        imfs : np.ndarray
+            Obtained IMFs
+        trend : np.ndarray
+            The main trend.
+
+        """
+        if self.imfs is None or self.residue is None:
+            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
+
+        imfs, residue = self.get_imfs_and_residue()
+        if len(imfs) > 0 and np.allclose(residue, 0):
+            return imfs[:-1].copy(), imfs[-1].copy()
+        else:
+            return imfs, residue
+
+
+###################################################
+
+
+if __name__ == "__main__":
+    import pylab as plt
+
+    # Logging options
+    logging.basicConfig(level=logging.DEBUG)
+
+    # EMD options
+    max_imf = -1
+    DTYPE = np.float64
+
+    # Signal options
+    N = 400
+    tMin, tMax = 0, 2 * np.pi
+    T = np.linspace(tMin, tMax, N, dtype=DTYPE)
+
+    S = np.sin(20 * T * (1 + 0.2 * T)) + T**2 + np.sin(13 * T)
+    S = S.astype(DTYPE)
+    print("Input S.dtype: " + str(S.dtype))
+
+    # Prepare and run EMD
+    emd = EMD()
+    emd.FIXE_H = 5
+    emd.nbsym = 2
+    emd.spline_kind = "cubic"
+    emd.DTYPE = DTYPE
+
+    imfs = emd.emd(S, T, max_imf)
+    imfNo = imfs.shape[0]
+
+    # Plot results
+    c = 1
+    r = np.ceil((imfNo + 1) / c)
+
+    plt.ioff()
+    plt.subplot(r, c, 1)
+    plt.plot(T, S, "r")
+    plt.xlim((tMin, tMax))
+    plt.title("Original signal")
+
+    for num in range(imfNo):
+        plt.subplot(r, c, num + 2)
+        plt.plot(T, imfs[num], "g")
+        plt.xlim((tMin, tMax))
+        plt.ylabel("Imf " + str(num + 1))
+
+    plt.tight_layout()
+    plt.show()
diff --git a/PyEMD/splines.py b/PyEMD/splines.py
index b47eb2f..8ef95fb 100644
--- a/PyEMD/splines.py
+++ b/PyEMD/splines.py
@@ -1,65 +1,65 @@
-import numpy as np
-from scipy.interpolate import Akima1DInterpolator, CubicHermiteSpline, CubicSpline, PchipInterpolator
-
-
-def cubic_spline_3pts(x, y, T):
-    """
-    Apparently scipy.interpolate.interp1d does not support
-    cubic spline for less than 4 points.
-    """
-    x0, x1, x2 = x
-    y0, y1, y2 = y
-
-    x1x0, x2x1 = x1 - x0, x2 - x1
-    y1y0, y2y1 = y1 - y0, y2 - y1
-    _x1x0, _x2x1 = 1.0 / x1x0, 1.0 / x2x1
-
-    m11, m12, m13 = 2 * _x1x0, _x1x0, 0
-    m21, m22, m23 = _x1x0, 2.0 * (_x1x0 + _x2x1), _x2x1
-    m31, m32, m33 = 0, _x2x1, 2.0 * _x2x1
-
-    v1 = 3 * y1y0 * _x1x0 * _x1x0
-    v3 = 3 * y2y1 * _x2x1 * _x2x1
-    v2 = v1 + v3
-
-    M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]])
-    v = np.array([v1, v2, v3]).T
+import numpy as np
+from scipy.interpolate import Akima1DInterpolator, CubicHermiteSpline, CubicSpline, PchipInterpolator
+
+
+def cubic_spline_3pts(x, y, T):
+    """
+    Apparently scipy.interpolate.interp1d does not support
+    cubic spline for less than 4 points.
+    """
+    x0, x1, x2 = x
+    y0, y1, y2 = y
+
+    x1x0, x2x1 = x1 - x0, x2 - x1
+    y1y0, y2y1 = y1 - y0, y2 - y1
+    _x1x0, _x2x1 = 1.0 / x1x0, 1.0 / x2x1
+
+    m11, m12, m13 = 2 * _x1x0, _x1x0, 0
+    m21, m22, m23 = _x1x0, 2.0 * (_x1x0 + _x2x1), _x2x1
+    m31, m32, m33 = 0, _x2x1, 2.0 * _x2x1
+
+    v1 = 3 * y1y0 * _x1x0 * _x1x0
+    v3 = 3 * y2y1 * _x2x1 * _x2x1
+    v2 = v1 + v3
+
+    M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]])
+    v = np.array([v1, v2, v3]).T
     # Half precision isn't supported by numpy.linalg
     k = np.linalg.solve(M.astype(np.float64), v.astype(np.float64))
-
-    a1 = k[0] * x1x0 - y1y0
-    b1 = -k[1] * x1x0 + y1y0
-    a2 = k[1] * x2x1 - y2y1
-    b2 = -k[2] * x2x1 + y2y1
-
-    t = T[np.r_[T >= x0] & np.r_[T <= x2]]
-    t1 = (T[np.r_[T >= x0] & np.r_[T < x1]] - x0) / x1x0
-    t2 = (T[np.r_[T >= x1] & np.r_[T <= x2]] - x1) / x2x1
-    t11, t22 = 1.0 - t1, 1.0 - t2
-
-    q1 = t11 * y0 + t1 * y1 + t1 * t11 * (a1 * t11 + b1 * t1)
-    q2 = t22 * y1 + t2 * y2 + t2 * t22 * (a2 * t22 + b2 * t2)
-    q = np.append(q1, q2)
-
-    return t, q
-
-
-def akima(X, Y, x):
-    spl = Akima1DInterpolator(X, Y)
-    return spl(x)
-
-
-def cubic_hermite(X, Y, x):
-    dydx = np.gradient(Y, X)
-    spl = CubicHermiteSpline(X, Y, dydx)
-    return spl(x)
-
-
-def cubic(X, Y, x):
-    spl = CubicSpline(X, Y)
-    return spl(x)
-
-
-def pchip(X, Y, x):
-    spl = PchipInterpolator(X, Y)
-    return spl(x)
+
+    a1 = k[0] * x1x0 - y1y0
+    b1 = -k[1] * x1x0 + y1y0
+    a2 = k[1] * x2x1 - y2y1
+    b2 = -k[2] * x2x1 + y2y1
+
+    t = T[np.r_[T >= x0] & np.r_[T <= x2]]
+    t1 = (T[np.r_[T >= x0] & np.r_[T < x1]] - x0) / x1x0
+    t2 = (T[np.r_[T >= x1] & np.r_[T <= x2]] - x1) / x2x1
+    t11, t22 = 1.0 - t1, 1.0 - t2
+
+    q1 = t11 * y0 + t1 * y1 + t1 * t11 * (a1 * t11 + b1 * t1)
+    q2 = t22 * y1 + t2 * y2 + t2 * t22 * (a2 * t22 + b2 * t2)
+    q = np.append(q1, q2)
+
+    return t, q
+
+
+def akima(X, Y, x):
+    spl = Akima1DInterpolator(X, Y)
+    return spl(x)
+
+
+def cubic_hermite(X, Y, x):
+    dydx = np.gradient(Y, X)
+    spl = CubicHermiteSpline(X, Y, dydx)
+    return spl(x)
+
+
+def cubic(X, Y, x):
+    spl = CubicSpline(X, Y)
+    return spl(x)
+
+
+def pchip(X, Y, x):
+    spl = PchipInterpolator(X, Y)
+    return spl(x)
-- 
2.43.0


From 57ee99b38ff0fa887137866d7ef00f8c9bbc18bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 15/24] fix: JitEMD never returned when the iteration limit was
 reached

---
 PyEMD/experimental/jitemd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 0aaeb96..b386a79 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -786,6 +786,7 @@ def _normalize_time(t: np.ndarray) -> np.ndarray:
     ),
     nopython=False,
     forceobj=True,
+    looplift=False,  # lifting loops with many exits loses the one at MAX_ITERATION
 )
 def emd(
     S: np.ndarray,
-- 
2.43.0


From e8c57e0614201babe93e0425529b5ecaafbf5632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 16/24] fix: JitEMD crashed on a signal of zeros

---
 PyEMD/experimental/jitemd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index b386a79..a20c20e 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -60,7 +60,7 @@ class JitEMD:
         self.residue = None
 
     def get_imfs_and_trend(self):
-        if np.allclose(self.residue, 0):
+        if len(self.imfs) > 0 and np.allclose(self.residue, 0):
             return self.imfs[:-1].copy(), self.imfs[-1].copy()
         return self.imfs, self.residue
 
@@ -74,7 +74,7 @@ class JitEMD:
             config=self.config,
         )
         self.imfs = imfs[:-1, :]
-        self.residue = imfs[-1, :]
+        self.residue = imfs[-1, :] if len(imfs) > 0 else np.zeros_like(s)
         return imfs
 
     def __call__(self, s, t, max_imf=-1):
-- 
2.43.0


From 52296365a36259368ad0673c73f10203b603351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 17/24] fix: EEMD and CEEMDAN in parallel mode could not use
 JitEMD

---
 PyEMD/experimental/jitemd.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index a20c20e..19ddea3 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -59,6 +59,18 @@ class JitEMD:
         self.imfs = None
         self.residue = None
 
+    def __getstate__(self):
+        # Typed dict can't be pickled, which is needed to pass the object to other processes, e.g. EEMD's workers
+        state = self.__dict__.copy()
+        state["config"] = dict(self.config)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.config = default_emd_config.copy()
+        for key, value in state["config"].items():
+            self.config[key] = value
+
     def get_imfs_and_trend(self):
         if len(self.imfs) > 0 and np.allclose(self.residue, 0):
             return self.imfs[:-1].copy(), self.imfs[-1].copy()
-- 
2.43.0


From eebeb04716c378f4179d26b9a752135a18d30fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 18/24] fix: JitEMD without time axis, e.g. in CEEMDAN

---
 PyEMD/experimental/jitemd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 19ddea3..ea5d323 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -76,7 +76,9 @@ class JitEMD:
             return self.imfs[:-1].copy(), self.imfs[-1].copy()
         return self.imfs, self.residue
 
-    def emd(self, s, t, max_imf=-1):
+    def emd(self, s, t=None, max_imf=-1):
+        if t is None:
+            t = get_timeline(len(s), s.dtype)
         imfs = emd(
             s,
             t,
@@ -89,7 +91,7 @@ class JitEMD:
         self.residue = imfs[-1, :] if len(imfs) > 0 else np.zeros_like(s)
         return imfs
 
-    def __call__(self, s, t, max_imf=-1):
+    def __call__(self, s, t=None, max_imf=-1):
         return self.emd(s, t, max_imf=max_imf)
 
 
-- 
2.43.0


From 40c02eca746cdaf71df7ff6d7dacf123c20e0948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:50 +0000
Subject: [PATCH 19/24] fix: EMD2D overflowed on images of small signed
 integers

---
 PyEMD/EMD2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2dbf5fb..cd6e35f 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -292,6 +292,7 @@ class EMD2D:
             Set of IMFs in form of numpy array where the first dimension
             relates to IMF's ordinary number.
         """
+        image = np.asarray(image, dtype=float)  # small integers would overflow below
         image_min, image_max = np.min(image), np.max(image)
         offset = image_min
         scale = image_max - image_min
-- 
2.43.0


From bddde85853b0b1e22d0038dae3e802bdc8dfe2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:50 +0000
Subject: [PATCH 20/24] fix: extrema of images of unsigned and small integers

---
 PyEMD/BEMD.py  | 3 ++-
 PyEMD/EMD2d.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyEMD/BEMD.py b/PyEMD/BEMD.py
index b0168f4..a148a87 100644
--- a/PyEMD/BEMD.py
+++ b/PyEMD/BEMD.py
@@ -112,10 +112,11 @@ class BEMD:
 
     @classmethod
     def extract_minima_positions(cls, image):
-        return BEMD.extract_maxima_positions(-image)
+        return BEMD.extract_maxima_positions(-np.asarray(image, dtype=float))
 
     @classmethod
     def extract_maxima_positions(cls, image):
+        image = np.asarray(image, dtype=float)  # integers would wrap below
         seed_min = image - 1
         dilated = reconstruction(seed_min, image, method="dilation")
         cleaned_image = image - dilated
diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index cd6e35f..2a0e368 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -182,6 +182,8 @@ class EMD2D:
             Maxima positions.
         """
 
+        image = np.asarray(image, dtype=float)  # negated below, unsigned types would wrap
+
         # define an 3x3 neighborhood
         neighborhood = generate_binary_structure(2, 2)
 
-- 
2.43.0


From ab6c7dc8bf8b8bc72fe92a633c1538e87a4b9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:37 +0000
Subject: [PATCH 21/24] fix: EMD2D subtracts the mean surface of a round only
 once

---
 PyEMD/EMD2d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2a0e368..1756fa9 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -328,9 +328,6 @@ class EMD2D:
 
                 self.logger.debug("min_peaks = %i  |  max_peaks = %i", len(min_peaks[0]), len(max_peaks[0]))
                 if len(min_peaks[0]) > 4 and len(max_peaks[0]) > 4:
-                    imf_old = imf.copy()
-                    imf = imf - mean_env
-
                     min_env, max_env = self.extract_max_min_spline(imf)
 
                     mean_env = 0.5 * (min_env + max_env)
-- 
2.43.0


From a0224dad984d12678d9d1f235f7c895395142c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 22/24] fix: row for the residue when requested by a truth
 value other than True

---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index 59ea762..5aac3b9 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -52,7 +52,7 @@ class Visualisation(object):
         imfs, residue = self._check_imfs(imfs, residue, include_residue)
 
         num_rows, t_length = imfs.shape
-        num_rows += include_residue is True
+        num_rows += bool(include_residue)
 
         t = t if t is not None else range(t_length)
 
-- 
2.43.0


From 99a735f08fd0f1d0053d32667e6321b961ef7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 23/24] fix: low order frequency scheme when requested by a
 truth value other than False

---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index 5aac3b9..a5421e5 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -135,7 +135,7 @@ class Visualisation(object):
     def _calc_inst_freq(self, sig, t, order, alpha):
         """Extracts instantaneous frequency through the Hilbert Transform."""
         inst_phase = self._calc_inst_phase(sig, alpha=alpha)
-        if order is False:
+        if not order:
             inst_freqs = np.diff(inst_phase) / (2 * np.pi * (t[1] - t[0]))
             inst_freqs = np.concatenate((inst_freqs, inst_freqs[:, -1].reshape(inst_freqs[:, -1].shape[0], 1)), axis=1)
         else:
-- 
2.43.0


From 9d6bfb256923ace4ed1648ee4c5797fa48957285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:48 +0000
Subject: [PATCH 24/24] fix: extrema and zero crossings of small values missed
 when products underflow

---
 PyEMD/EMD.py                 | 6 +++---
 PyEMD/EMD_matlab.py          | 6 +++---
 PyEMD/experimental/jitemd.py | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 603145a..06af3aa 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -559,7 +559,7 @@ class EMD:
         """
         # Finds indexes of zero-crossings
         S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
+        indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
         if np.any(S == 0):
             indz = np.nonzero(S == 0)[0]
             if np.any(np.diff(indz) == 1):
@@ -620,7 +620,7 @@ class EMD:
 
         # Finds indexes of zero-crossings
         S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
+        indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
         if np.any(S == 0):
             indz = np.nonzero(S == 0)[0]
             if np.any(np.diff(indz) == 1):
@@ -635,7 +635,7 @@ class EMD:
         # Finds local extrema
         d = np.diff(S)
         d1, d2 = d[:-1], d[1:]
-        sign_change = d1 * d2 < 0
+        sign_change = np.sign(d1) * np.sign(d2) < 0  # product of small values would underflow
         indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
         indmax = np.nonzero(sign_change & (d1 > 0))[0] + 1
 
diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 5e1bd5f..63c7feb 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -323,7 +323,7 @@ class EMD:
 
         # Finds indexes of zero-crossings
         s1, s2 = s[:-1], s[1:]
-        indzer = np.nonzero(s1 * s2 < 0)[0]
+        indzer = np.nonzero(np.sign(s1) * np.sign(s2) < 0)[0]
         if np.any(s == 0):
             iz = np.nonzero(s == 0)[0]
             indz = []
@@ -341,8 +341,8 @@ class EMD:
         # Finds local extrema
         d = np.diff(s)
         d1, d2 = d[:-1], d[1:]
-        indmin = np.nonzero(np.r_[d1 * d2 < 0] & np.r_[d1 < 0])[0] + 1
-        indmax = np.nonzero(np.r_[d1 * d2 < 0] & np.r_[d1 > 0])[0] + 1
+        indmin = np.nonzero(np.r_[np.sign(d1) * np.sign(d2) < 0] & np.r_[d1 < 0])[0] + 1
+        indmax = np.nonzero(np.r_[np.sign(d1) * np.sign(d2) < 0] & np.r_[d1 > 0])[0] + 1
 
         # When two or more points have the same value
         if np.any(d == 0):
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index ea5d323..d511de5 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -174,7 +174,7 @@ def nb_diff(s):
 def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # Finds indexes of zero-crossings
     S1, S2 = S[:-1], S[1:]
-    indzer = np.nonzero(S1 * S2 < 0)[0]
+    indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
     if np.any(S == 0):
         indz = np.nonzero(S == 0)[0]
         if np.any(nb_diff(indz) == 1):
@@ -192,8 +192,8 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # Finds local extrema
     d = S2 - S1
     d1, d2 = d[:-1], d[1:]
-    indmin = np.nonzero(np.logical_and(d1 * d2 < 0, d1 < 0))[0] + 1
-    indmax = np.nonzero(np.logical_and(d1 * d2 < 0, d1 > 0))[0] + 1
+    indmin = np.nonzero(np.logical_and(np.sign(d1) * np.sign(d2) < 0, d1 < 0))[0] + 1
+    indmax = np.nonzero(np.logical_and(np.sign(d1) * np.sign(d2) < 0, d1 > 0))[0] + 1
     indmin = indmin.astype(np.int64)
     indmax = indmax.astype(np.int64)
 
@@ -248,7 +248,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
 def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # Finds indexes of zero-crossings
     S1, S2 = S[:-1], S[1:]
-    indzer = np.nonzero(S1 * S2 < 0)[0]
+    indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
     if np.any(S == 0):
         indz = np.nonzero(S == 0)[0]
         if np.any(nb_diff(indz) == 1):
-- 
2.43.0

