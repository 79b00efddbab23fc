From 95b9e2c161a88bba8cd45ea9d171953b5c040f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 01/60] fix: support numba >= 0.59.0, which removed
 generated_jit

---
 africanus/util/numba.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/africanus/util/numba.py b/africanus/util/numba.py
index 9574e6d..0e7c9b8 100644
--- a/africanus/util/numba.py
+++ b/africanus/util/numba.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
 
-from decorator import decorate
+from decorator import decorate, FunctionMaker
 from numba import types
 
 from africanus.util.docs import on_rtd
@@ -26,9 +26,31 @@ if on_rtd():
     overload = _fake_decorator
     register_jitable = _fake_decorator
 else:
-    from numba import cfunc, jit, njit, generated_jit, stencil  # noqa
+    from numba import cfunc, jit, njit, stencil  # noqa
     from numba.extending import overload, register_jitable  # noqa
 
+    try:
+        from numba import generated_jit
+    except ImportError:
+        # generated_jit was removed in numba 0.59.0.
+        # Implement it in terms of its replacement: overload
+        def generated_jit(**options):
+            options.pop("nopython", None)  # always the case
+            options.pop("cache", None)     # generated code isn't cacheable
+
+            def decorator(fn):
+                def stub(*args, **kwargs):
+                    raise NotImplementedError("Only callable from jitted code")
+
+                # fn returns an implementation for the given argument types
+                overload(stub, jit_options=options, prefer_literal=True)(fn)
+
+                # Dispatch a function with fn's signature to the above
+                return njit(**options)(FunctionMaker.create(
+                    fn, "return stub(%(signature)s)", {"stub": stub}))
+
+            return decorator
+
 
 def is_numba_type_none(arg):
     """
-- 
2.43.0


From 8f7ed69e8c0f22a1340c32194ffe3ea33f2a8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 02/60] fix: replace np.object, removed in numpy 1.24

---
 africanus/averaging/dask.py      | 20 ++++++++++----------
 africanus/gridding/nifty/dask.py |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 6eba313..bcb01fe 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -54,7 +54,7 @@ def chan_metadata(row_chan_arrays, chan_arrays, chan_bin_size):
               for i, c in enumerate(chan_chunks)}
     graph = HighLevelGraph.from_collections(name, layers, ())
     chunks = (chan_chunks,)
-    chan_mapper = da.Array(graph, name, chunks, dtype=np.object)
+    chan_mapper = da.Array(graph, name, chunks, dtype=object)
 
     return chan_mapper
 
@@ -70,8 +70,8 @@ def row_mapper(time, interval, antenna1, antenna2,
                         flag_row, None if flag_row is None else ("row",),
                         adjust_chunks={"row": lambda x: np.nan},
                         time_bin_secs=time_bin_secs,
-                        meta=np.empty((0,), dtype=np.object),
-                        dtype=np.object)
+                        meta=np.empty((0,), dtype=object),
+                        dtype=object)
 
 
 def _getitem_row(avg, idx, array, dims):
@@ -125,8 +125,8 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
                        *(v for pair in args for v in pair[1:]),
                        align_arrays=False,
                        adjust_chunks={"row": lambda x: np.nan},
-                       meta=np.empty((0,)*len(rd), dtype=np.object),
-                       dtype=np.object)
+                       meta=np.empty((0,)*len(rd), dtype=object),
+                       dtype=object)
 
     # ant1, ant2, time_centroid, exposure, uvw, weight, sigma
     out_args = [(a, dims) for out, a, dims in args if out is True]
@@ -149,7 +149,7 @@ def _getitem_row_chan(avg, idx, dtype):
 
     graph = HighLevelGraph.from_collections(name, layers, (avg,))
     return da.Array(graph, name, avg.chunks,
-                    meta=np.empty((0,)*len(dim), dtype=np.object),
+                    meta=np.empty((0,)*len(dim), dtype=object),
                     dtype=dtype)
 
 
@@ -191,8 +191,8 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                        align_arrays=False,
                        adjust_chunks=adjust_chunks,
                        meta=np.empty((0,)*len(_row_chan_avg_dims),
-                                     dtype=np.object),
-                       dtype=np.object)
+                                     dtype=object),
+                       dtype=object)
 
     tuple_gets = (None if a is None else _getitem_row_chan(avg, i, a.dtype)
                   for i, a in enumerate([vis, flag,
@@ -234,8 +234,8 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                        effective_bw, None if effective_bw is None else cdim,
                        resolution, None if resolution is None else cdim,
                        adjust_chunks=adjust_chunks,
-                       meta=np.empty((0,), dtype=np.object),
-                       dtype=np.object)
+                       meta=np.empty((0,), dtype=object),
+                       dtype=object)
 
     tuple_gets = (None if a is None else _getitem_chan(avg, i, a.dtype)
                   for i, a in enumerate([chan_freq, chan_width,
diff --git a/africanus/gridding/nifty/dask.py b/africanus/gridding/nifty/dask.py
index 675d77b..a3e0ba8 100644
--- a/africanus/gridding/nifty/dask.py
+++ b/africanus/gridding/nifty/dask.py
@@ -310,7 +310,7 @@ def grid(vis, uvw, flags, weights, frequencies, grid_config,
     baselines = da.blockwise(_nifty_baselines, ("row",),
                              uvw, ("row", "uvw"),
                              frequencies, ("chan",),
-                             dtype=np.object)
+                             dtype=object)
 
     if len(frequencies.chunks[0]) != 1:
         raise ValueError("Chunking in channel unsupported")
@@ -492,7 +492,7 @@ def degrid(grid, uvw, flags, weights, frequencies,
     baselines = da.blockwise(_nifty_baselines, ("row",),
                              uvw, ("row", "uvw"),
                              frequencies, ("chan",),
-                             dtype=np.object)
+                             dtype=object)
 
     gc = grid_config.object
     vis_chunks = []
-- 
2.43.0


From b42f14a371d20515d29d16a4c4bf2cd26b786274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 03/60] fix: replace np.float, removed in numpy 1.24

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 934e735..395bb17 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -304,7 +304,7 @@ class BoundingConvexHull(object):
         unique_pxls_flatten, paint_count = np.unique(
             allmasks_flatten, return_counts=True
         )
-        paint_count = paint_count.astype(np.float)
+        paint_count = paint_count.astype(np.float64)
 
         if only_overlapped_regions:
             sel = paint_count > 1
-- 
2.43.0


From 716eba4999e3bcacf1142275bf97ccca96b24e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:54 +0000
Subject: [PATCH 04/60] fix: raise ValueError, not UnboundLocalError, on
 unknown output correlations

---
 africanus/model/coherency/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/coherency/conversion.py b/africanus/model/coherency/conversion.py
index c9ee34b..5e834e9 100644
--- a/africanus/model/coherency/conversion.py
+++ b/africanus/model/coherency/conversion.py
@@ -112,7 +112,7 @@ def convert_setup(input, input_schema, output_schema):
             deps = stokes_conv[okey]
         except KeyError:
             raise ValueError("Unknown output '%s'. Known types '%s'"
-                             % (deps, STOKES_TYPES))
+                             % (okey, STOKES_TYPES))
 
         found_conv = False
 
-- 
2.43.0


From 1a727d32682ad8df3824deb07fae9643b7e3480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:05 +0000
Subject: [PATCH 05/60] fix: average rows flagged with values other than one

Any non-zero flag_row value flags a row, but the averaged flag_row is
always 0 or 1: a bin whose rows were flagged with e.g. 2 matched no output
flag and failed as a zero-filled bin.
---
 africanus/averaging/time_and_channel_avg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/time_and_channel_avg.py b/africanus/averaging/time_and_channel_avg.py
index 2940e47..6b52464 100644
--- a/africanus/averaging/time_and_channel_avg.py
+++ b/africanus/averaging/time_and_channel_avg.py
@@ -15,7 +15,8 @@ from africanus.util.numba import is_numba_type_none, generated_jit, njit
 def matching_flag_factory(present):
     if present:
         def impl(flag_row, ri, out_flag_row, ro):
-            return flag_row[ri] == out_flag_row[ro]
+            # Any non-zero value flags a row
+            return (flag_row[ri] != 0) == (out_flag_row[ro] != 0)
     else:
         def impl(flag_row, ri, out_flag_row, ro):
             return True
-- 
2.43.0


From b1e15ebf465595dd2855373082eb5bd0ed0a0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:05 +0000
Subject: [PATCH 06/60] fix: average row data without any channel data in dask

---
 africanus/averaging/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index bcb01fe..1c6af65 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -219,7 +219,7 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                  effective_bw=None, resolution=None, chan_bin_size=1):
 
     if chan_meta is None:
-        return ChannelAverageOutput(None, None)
+        return ChannelAverageOutput(None, None, None, None)
 
     adjust_chunks = {
         "chan": lambda c: (c + chan_bin_size - 1) // chan_bin_size
-- 
2.43.0


From b5af37db3fd581622045ccb458625c5b870fef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:05 +0000
Subject: [PATCH 07/60] fix: average channel data without visibility data in
 dask

---
 africanus/averaging/dask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 1c6af65..ba8070e 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -162,7 +162,9 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                      chan_bin_size=1):
     """ Average (row,chan,corr)-based dask arrays """
 
-    if chan_meta is None:
+    if chan_meta is None or all(a is None for a in (vis, flag,
+                                                    weight_spectrum,
+                                                    sigma_spectrum)):
         return RowChanAverageOutput(None, None, None, None)
 
     # We don't know how many rows are in each row chunk,
-- 
2.43.0


From f49f0c92f9c50a3314979d7bac6ac135d688828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:05 +0000
Subject: [PATCH 08/60] fix: report the averaged channel chunks in dask
 chan_average outputs

---
 africanus/averaging/dask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index ba8070e..a68ebfb 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -316,7 +316,8 @@ def time_and_channel(time, interval, antenna1, antenna2,
                              chan_freq=chan_freq,
                              chan_width=chan_width,
                              effective_bw=effective_bw,
-                             resolution=resolution)
+                             resolution=resolution,
+                             chan_bin_size=chan_bin_size)
 
     # Merge output tuples
     return AverageOutput(_getitem_row(row_meta, 1, time, ("row",)),
-- 
2.43.0


From 943ee695237ebc0a2477e6ceb197e39b003c6809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:11 +0000
Subject: [PATCH 09/60] fix: average all correlation chunks in dask row_average

Only the first chunk of weight, sigma and uvw was averaged, so the outputs
were smaller than their declared shape.
---
 africanus/averaging/dask.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index a68ebfb..cb18724 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -92,16 +92,6 @@ def _getitem_row(avg, idx, array, dims):
                     dtype=array.dtype)
 
 
-def _row_average_wrapper(row_meta, ant1, ant2, flag_row,
-                         time_centroid, exposure, uvw,
-                         weight, sigma):
-    return np_row_average(row_meta, ant1, ant2, flag_row,
-                          time_centroid, exposure,
-                          uvw[0] if uvw is not None else None,
-                          weight[0] if weight is not None else None,
-                          sigma[0] if sigma is not None else None)
-
-
 def row_average(row_meta, ant1, ant2, flag_row=None,
                 time_centroid=None, exposure=None, uvw=None,
                 weight=None, sigma=None):
@@ -121,9 +111,11 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
             (True, weight, None if weight is None else rcd),
             (True, sigma, None if sigma is None else rcd)]
 
-    avg = da.blockwise(_row_average_wrapper, rd,
+    # uvw and corr are contracted: concatenate all of their chunks
+    avg = da.blockwise(np_row_average, rd,
                        *(v for pair in args for v in pair[1:]),
                        align_arrays=False,
+                       concatenate=True,
                        adjust_chunks={"row": lambda x: np.nan},
                        meta=np.empty((0,)*len(rd), dtype=object),
                        dtype=object)
-- 
2.43.0


From ab87851475f8f700838054246eea7b1f20d866fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:53 +0000
Subject: [PATCH 10/60] fix: reset the lower edge of each time bin after the
 first

bin_low kept the lower edge of a baseline's first time bin, so every sample
after that bin exceeded time_bin_secs and was put in a bin of its own.
---
 africanus/averaging/time_and_channel_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/africanus/averaging/time_and_channel_mapping.py b/africanus/averaging/time_and_channel_mapping.py
index f050141..9f76f17 100644
--- a/africanus/averaging/time_and_channel_mapping.py
+++ b/africanus/averaging/time_and_channel_mapping.py
@@ -263,6 +263,7 @@ def row_mapper(time, interval, antenna1, antenna2,
                     tbin += 1
                     bin_count = 0
                     bin_flag_count = 0
+                    bin_low = time[r] - half_int
 
                 # Record the output bin associated with the row
                 bin_lookup[bl, t] = tbin
-- 
2.43.0


From 0c2df32767024bf81c3bcc5964df7937629e578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 11/60] fix: do not shift the caller's time_bin_indices in
 place

The calibration kernels subtracted the first index from time_bin_indices in
place. The caller's array was changed, so that using it for other rows gave
wrong results, and dask tasks sharing a chunk raced on it.
---
 africanus/calibration/phase_only/phase_only.py         | 6 +++---
 africanus/calibration/utils/compute_and_corrupt_vis.py | 2 +-
 africanus/calibration/utils/correct_vis.py             | 2 +-
 africanus/calibration/utils/corrupt_vis.py             | 2 +-
 africanus/calibration/utils/residual_vis.py            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 8668de1..c4063bc 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -36,7 +36,7 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for chunked dask arrays we need to adjust the chunks to
         # start counting from zero (see also map_blocks)
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -82,7 +82,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -122,7 +122,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
diff --git a/africanus/calibration/utils/compute_and_corrupt_vis.py b/africanus/calibration/utils/compute_and_corrupt_vis.py
index 85496c5..593779b 100644
--- a/africanus/calibration/utils/compute_and_corrupt_vis.py
+++ b/africanus/calibration/utils/compute_and_corrupt_vis.py
@@ -85,7 +85,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                                     uvw, freq, lm):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = (antenna1.shape[0],) + (freq.shape[0],) + model.shape[3:]
diff --git a/africanus/calibration/utils/correct_vis.py b/africanus/calibration/utils/correct_vis.py
index d629ae2..935b74b 100644
--- a/africanus/calibration/utils/correct_vis.py
+++ b/africanus/calibration/utils/correct_vis.py
@@ -77,7 +77,7 @@ def correct_vis(time_bin_indices, time_bin_counts,
                         antenna1, antenna2, jones, vis, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_dir = jones_shape[3]
diff --git a/africanus/calibration/utils/corrupt_vis.py b/africanus/calibration/utils/corrupt_vis.py
index 22b15ab..e1e31f0 100644
--- a/africanus/calibration/utils/corrupt_vis.py
+++ b/africanus/calibration/utils/corrupt_vis.py
@@ -67,7 +67,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = model.shape[:2] + model.shape[3:]
diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index d0e9812..3528bd6 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -71,7 +71,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         vis_shape = np.shape(vis)
         n_chan = vis_shape[1]
-- 
2.43.0


From 6764bb9ea11cb8e3527f4af6651b0f12b99c69aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 12/60] fix: do not whiten the caller's visibilities in
 gauss_newton

---
 africanus/calibration/phase_only/phase_only.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index c4063bc..21c890a 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,8 +159,8 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
-    vis *= sqrtweights
-    model *= sqrtweights[:, :, None]
+    vis = vis * sqrtweights
+    model = model * sqrtweights[:, :, None]
 
     mode = check_type(jones, vis)
 
-- 
2.43.0


From 2ee81895755fdde843b436b2d55c5492b91a84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 13/60] fix: accept weights without a channel axis in
 gauss_newton

as its documentation describes.
---
 africanus/calibration/phase_only/phase_only.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 21c890a..deb427e 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -157,6 +157,10 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
                  antenna2, jones, vis, flag, model,
                  weight, tol=1e-4, maxiter=100):
 
+    # duplicate weights for each channel if the channel axis is missing
+    if weight.ndim == vis.ndim - 1:
+        weight = weight[:, None]
+
     # whiten data
     sqrtweights = np.sqrt(weight)
     vis = vis * sqrtweights
-- 
2.43.0


From c04147577cb84c60c93170b21f0825d3e32b2335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 14/60] fix: keep iterating gauss_newton when a gain has no
 unflagged data

0/0 made the convergence criterion NaN, which stopped the solver after the
first iteration for all gains.
---
 africanus/calibration/phase_only/phase_only.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index deb427e..0e2b7ce 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -190,7 +190,10 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
                           jones, residual, model, flag)
 
         # implement update
-        phases_new = phases + 0.5 * (jhr/jhj).real
+        # (gains which are not constrained by any data are left alone)
+        step = np.zeros_like(jhj)
+        np.divide(jhr.real, jhj, out=step, where=jhj != 0)
+        phases_new = phases + 0.5 * step
         jones = np.exp(1.0j * phases_new)
 
         # check convergence/iteration control
-- 
2.43.0


From d31f9464d9984451751a4b9c76de21e9c9fe7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 15/60] fix: declare the time chunks and dtype of dask jhj and
 jhr

They have the shape of jones, but declared one row per visibility.
---
 africanus/calibration/phase_only/dask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c1281be..1747b65 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -35,9 +35,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.real.dtype,
                      align_arrays=False)
 
 
@@ -62,9 +62,9 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      residual, vis_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From b4bcbb2a893feb72f69e0764ab84674c2f0dc7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 16/60] fix: declare the dtype of dask compute_and_corrupt_vis

---
 africanus/calibration/utils/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 4c2655d..8d1598c 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -128,7 +128,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
                      new_axes={"corr2": 2},
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From 4f04273dbf25fd70a805f8a9ce26f42e2cefdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 17/60] fix: convert direction cosines beyond the pole to the
 right hemisphere

Sources on the far side of the pole from the phase centre were given a
Right Ascension half a turn off, and those on the pole's meridian failed
with a division by zero.
---
 africanus/coordinates/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index c2b1273..accd9a4 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -124,7 +124,7 @@ def lmn_to_radec(lmn, phase_centre=None):
             l, m, n = lmn[s]
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
@@ -155,7 +155,7 @@ def lm_to_radec(lm, phase_centre=None):
             n = np.sqrt(1.0 - l**2 - m**2)
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
-- 
2.43.0


From 5626360fd35d9be67aa312b09a51436495bbf4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 18/60] fix: discard all chunks of a partially flagged sample
 in dask vis_to_im

---
 africanus/dft/dask.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/africanus/dft/dask.py b/africanus/dft/dask.py
index eff1415..4dec494 100644
--- a/africanus/dft/dask.py
+++ b/africanus/dft/dask.py
@@ -71,6 +71,12 @@ def vis_to_im(vis, uvw, lm, frequency, flags,
         raise ValueError("Vis chunks must match flags "
                          "chunks on all axes")
 
+    # One flagged correlation discards all of them,
+    # including those in other chunks
+    if len(flags.chunks[2]) > 1:
+        flags = da.broadcast_to(da.any(flags, axis=2, keepdims=True),
+                                flags.shape, chunks=flags.chunks)
+
     ims = da.core.blockwise(_vis_to_im_wrapper,
                             ("row", "source", "chan", "corr"),
                             vis, ("row", "chan", "corr"),
-- 
2.43.0


From 2c766dcdb8a57adab89a9e71acad6f1cfa552093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 19/60] fix: NaN declinations of sources at a pole

Rounding could take the argument of arcsin beyond one.
---
 africanus/coordinates/coordinates.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index accd9a4..3eeb7f9 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -123,7 +123,10 @@ def lmn_to_radec(lmn, phase_centre=None):
         for s in range(radec.shape[0]):
             l, m, n = lmn[s]
 
-            radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
+            # rounding may take the sine beyond one at the poles
+            sin_dec = m*cos_pc_dec + n*sin_pc_dec
+            sin_dec = np.minimum(np.maximum(sin_dec, -1.0), 1.0)
+            radec[s, 1] = np.arcsin(sin_dec)
             radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
@@ -154,7 +157,10 @@ def lm_to_radec(lm, phase_centre=None):
             l, m = lm[s]
             n = np.sqrt(1.0 - l**2 - m**2)
 
-            radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
+            # rounding may take the sine beyond one at the poles
+            sin_dec = m*cos_pc_dec + n*sin_pc_dec
+            sin_dec = np.minimum(np.maximum(sin_dec, -1.0), 1.0)
+            radec[s, 1] = np.arcsin(sin_dec)
             radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
-- 
2.43.0


From 62ac81ff14631d98336f74d3821068518aff0ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:58 +0000
Subject: [PATCH 20/60] fix: rotate m with the unrotated l in transform_sources

---
 africanus/rime/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/transform.py b/africanus/rime/transform.py
index eed0e55..25ce571 100644
--- a/africanus/rime/transform.py
+++ b/africanus/rime/transform.py
@@ -24,11 +24,11 @@ def _nb_transform_sources(lm, parallactic_angles, pointing_errors,
             pa_cos = math.cos(parallactic_angles[t, a])
 
             for s in range(nsrc):
-                l, m = lm[s]
+                l0, m0 = lm[s]
 
                 # Rotate source coordinate by parallactic angle
-                l = l*pa_cos - m*pa_sin  # noqa
-                m = l*pa_sin + m*pa_cos
+                l = l0*pa_cos - m0*pa_sin  # noqa
+                m = l0*pa_sin + m0*pa_cos
 
                 # Add pointing errors
                 l += pointing_errors[t, a, 0]  # noqa
-- 
2.43.0


From c958193991a47cdb30227676404d81801db488e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:48 +0000
Subject: [PATCH 21/60] fix: consider base_vis in the dtype of dask predict_vis

---
 africanus/rime/dask_predict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 98e56e3..f8f5f30 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -403,7 +403,8 @@ def predict_vis(time_index, antenna1, antenna2,
                              (time_index.chunks[0], die1_jones.chunks[1]))
 
     # Infer the output dtype
-    dtype_arrays = [dde1_jones, source_coh, dde2_jones, die1_jones, die2_jones]
+    dtype_arrays = [dde1_jones, source_coh, dde2_jones,
+                    die1_jones, base_vis, die2_jones]
     out_dtype = np.result_type(*(np.dtype(a.dtype.name)
                                  for a in dtype_arrays
                                  if a is not None))
-- 
2.43.0


From 4353faead1217fed087f879afe567c1e7efcbe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:13 +0000
Subject: [PATCH 22/60] fix: accept negative coefficients in wsclean
 logarithmic polynomials

---
 africanus/model/wsclean/spec_model.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/africanus/model/wsclean/spec_model.py b/africanus/model/wsclean/spec_model.py
index f213840..359360b 100644
--- a/africanus/model/wsclean/spec_model.py
+++ b/africanus/model/wsclean/spec_model.py
@@ -93,11 +93,6 @@ def spectra(I, coeffs, log_poly, ref_freq, frequency):  # noqa: E741
 
                     for c in range(ncoeffs):
                         term = coeffs[s, c]
-
-                        if term <= 0.0:
-                            raise ValueError("log polynomial coefficient "
-                                             "must be > 0")
-
                         term *= np.log(nu/rf)**(c + 1)
                         spectral_model[s, f] += term
 
-- 
2.43.0


From 87dfe488d9090a186c9d814cb8bc1b2f82c3ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:13 +0000
Subject: [PATCH 23/60] fix: declare the computed dtype of dask spectral models

---
 africanus/model/spectral/dask.py | 5 ++++-
 africanus/model/wsclean/dask.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 080f36a..6244956 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -6,6 +6,8 @@ from africanus.model.spectral.spec_model import (
                                         SPECTRAL_MODEL_DOC)
 from africanus.util.requirements import requires_optional
 
+import numpy as np
+
 try:
     import dask.array as da
 except ImportError as e:
@@ -31,7 +33,8 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
                         ref_freq, ("source",),
                         frequencies, ("chan",),
                         base=base,
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(*(a.dtype for a in (
+                            stokes, spi, ref_freq, frequencies))))
 
 
 try:
diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index f4c223a..58f2f11 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -5,6 +5,8 @@ from africanus.model.wsclean.spec_model import (spectra as np_spectra,
                                                 SPECTRA_DOCS)
 from africanus.util.requirements import requires_optional
 
+import numpy as np
+
 try:
     import dask.array as da
 except ImportError as e:
@@ -28,7 +30,8 @@ def spectra(stokes, spi, log_si, ref_freq, frequency):
                         log_si, log_si_schema,
                         ref_freq, ("source",),
                         frequency, ("chan",),
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(*(a.dtype for a in (
+                            stokes, spi, ref_freq, frequency))))
 
 
 try:
-- 
2.43.0


From 52d0dd1d890f2876bcfc482023539f5b280bf7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:13 +0000
Subject: [PATCH 24/60] fix: apply per-polarisation bases to the right chunk in
 dask spectral_model

---
 africanus/model/spectral/dask.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 6244956..1553e87 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -27,6 +27,12 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
 
     pol_dim = () if stokes.ndim == 1 else ("pol",)
 
+    if pol_dim and isinstance(base, list):
+        # each element of base belongs to a polarisation,
+        # which therefore can't be divided amongst chunks
+        stokes = stokes.rechunk({1: -1})
+        spi = spi.rechunk({2: -1})
+
     return da.blockwise(_wrapper, ("source", "chan",) + pol_dim,
                         stokes, ("source",) + pol_dim,
                         spi, ("source", "spi") + pol_dim,
-- 
2.43.0


From bbae7d0a8863c47eded8bb54fbe07885b6bd08f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:29 +0000
Subject: [PATCH 25/60] fix: reject chunked polynomial coefficients in dask
 wsclean models

---
 africanus/model/wsclean/dask.py | 3 +++
 africanus/rime/dask_predict.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index 58f2f11..9aa7827 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -21,6 +21,9 @@ def _wrapper(stokes, spi, log_si, ref_freq, frequency):
 
 @requires_optional('dask.array', opt_import_error)
 def spectra(stokes, spi, log_si, ref_freq, frequency):
+    if len(spi.chunks[1]) != 1:
+        raise ValueError("Chunking along the spi dimension unsupported")
+
     corrs = tuple("corr-%d" % i for i in range(len(stokes.shape[1:])))
     log_si_schema = None if isinstance(log_si, bool) else ("source",)
 
diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index f8f5f30..44ecafa 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -470,6 +470,9 @@ def wsclean_body_wrapper(uvw, lm, source_type, gauss_shape,
 @requires_optional('dask.array', opt_import_error)
 def wsclean_predict(uvw, lm, source_type, flux, coeffs,
                     log_poly, ref_freq, gauss_shape, frequency):
+    if len(coeffs.chunks[1]) != 1:
+        raise ValueError("Chunking along the coeffs dimension unsupported")
+
     spectrum_dtype = np.result_type(*(a.dtype for a in (flux, coeffs,
                                                         log_poly, ref_freq,
                                                         frequency)))
-- 
2.43.0


From 4bcd6d26dc87b31a9a5cfeff57aabf34721606fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:29 +0000
Subject: [PATCH 26/60] fix: reject chunked channels in dask fit_spi_components

---
 africanus/model/spi/dask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/model/spi/dask.py b/africanus/model/spi/dask.py
index 55bd194..f4ae9c2 100644
--- a/africanus/model/spi/dask.py
+++ b/africanus/model/spi/dask.py
@@ -33,6 +33,9 @@ def fit_spi_components(data, weights, freqs, freq0,
                        alphai=None, I0i=None, beam=None,
                        tol=1e-5, maxiter=100):
     """ Dask wrapper fit_spi_components function """
+    if len(data.chunks[1]) != 1:
+        raise ValueError("Chunking along the chan dimension unsupported")
+
     return blockwise(_fit_spi_components_wrapper, ("vars", "comps"),
                      data, ("comps", "chan"),
                      weights, ("chan",),
-- 
2.43.0


From b8bdbc4ac8af83bffae9edfc31ab32e1dc810b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:20 +0000
Subject: [PATCH 27/60] fix: fit spectral indices of single precision data

---
 africanus/model/spi/component_spi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/africanus/model/spi/component_spi.py b/africanus/model/spi/component_spi.py
index b09e5c8..6c2670d 100644
--- a/africanus/model/spi/component_spi.py
+++ b/africanus/model/spi/component_spi.py
@@ -17,8 +17,9 @@ def _fit_spi_components_impl(data, weights, freqs, freq0, out,
     for comp in range(ncomps):
         eps = 1.0
         k = 0
-        alphak = out[0, comp]
-        i0k = out[2, comp]
+        # iterate in double precision, also on single precision data
+        alphak = np.float64(out[0, comp])
+        i0k = np.float64(out[2, comp])
         b = beam[comp]
         while eps > tol and k < maxiter:
             alphap = alphak
-- 
2.43.0


From 2567fde4e6f2f339cf5790cb25122c9d27a4cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 28/60] fix: keep the progress bar's estimate until more tasks
 complete

---
 africanus/util/dask_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 8906cff..ae3fb54 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -98,7 +98,7 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
     # If we've completed some new tasks, update our estimate
     # otherwise use previous estimate. This prevents jumps
     # relative to the elapsed time
-    if completed != prev_completed:
+    if completed != prev_completed and time_guess > 0.0:
         estimated = estimated * elapsed / time_guess
     else:
         estimated = prev_estimated
@@ -128,11 +128,11 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
 
 def timer_func(pb):
     start = default_timer()
+    prev_completed = 0
+    prev_estimated = 0.0
 
     while pb.running.is_set():
         elapsed = default_timer() - start
-        prev_completed = 0
-        prev_estimated = 0.0
 
         if elapsed > pb._minimum:
             prev_completed, prev_estimated = update_bar(elapsed,
-- 
2.43.0


From 2c58fe4066a6a8d8687d1dfeb65d352853ed9839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 29/60] fix: do not clear the progress bar's tasks while its
 thread reads them

---
 africanus/util/dask_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index ae3fb54..aa90ea0 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -207,8 +207,10 @@ class EstimatingProgressBar(Callback):
 
     def _finish(self, dsk, state, errored):
         self.running.clear()
-        self.task_data.clear()
-        self.task_start.clear()
+
+        with self._lock:
+            self.task_data.clear()
+            self.task_start.clear()
 
     def _pretask(self, key, dsk, state):
         with self._lock:
-- 
2.43.0


From 3fba8de3b2405cb99ea78881d06690411dbaf672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 30/60] fix: read beam headers with an untyped axis

---
 africanus/util/beams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/beams.py b/africanus/util/beams.py
index 8fffeff..4eb5479 100644
--- a/africanus/util/beams.py
+++ b/africanus/util/beams.py
@@ -22,7 +22,7 @@ class FitsAxes(object):
         # Extract header information for each dimension
         axr = list(range(1, ndims+1))
         self._naxis = [header.get('NAXIS%d' % n) for n in axr]
-        self._ctype = [header.get('CTYPE%d' % n, n).strip() for n in axr]
+        self._ctype = [header.get('CTYPE%d' % n, str(n)).strip() for n in axr]
         self._crval = [header.get('CRVAL%d' % n, 0) for n in axr]
         # Convert right pixel from FORTRAN to C indexing
         self._crpix = [header['CRPIX%d' % n]-1 for n in axr]
-- 
2.43.0


From 3fe13d31417b1f71735ce91e08eda575bf9fd754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 31/60] fix: do not aggregate an empty chunk before a large
 first chunk

---
 africanus/util/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/util/shapes.py b/africanus/util/shapes.py
index 4566d90..b1b5d1f 100644
--- a/africanus/util/shapes.py
+++ b/africanus/util/shapes.py
@@ -51,7 +51,8 @@ def aggregate_chunks(chunks, max_chunks):
             if chunk_scratch[ci] > max_chunks[ci]:
                 aggregate = True
 
-        if aggregate:
+        # Nothing precedes the first chunk
+        if aggregate and di > 0:
             for ci, chunk in enumerate(chunks):
                 agg_chunks[ci].append(agg_chunk_counts[ci])
                 agg_chunk_counts[ci] = chunk[di]
-- 
2.43.0


From a3bd542c51b852d7daf7341b9da8eadfd4a22545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 32/60] fix: normalise each projection axis in overlaps_with

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 395bb17..5e8bf9a 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -420,7 +420,7 @@ class BoundingConvexHull(object):
         # get the projection axes
         normals = np.vstack([self.lnormals, other.lnormals])
         norms = np.linalg.norm(normals, axis=1)
-        normals = normals / norms[None, 2]
+        normals = normals / norms[:, None]
 
         # compute vectors to corners from origin
         vecs_reg1 = self.corners
-- 
2.43.0


From 63867c3195a0c098f70770356558f71b401b1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 33/60] fix: count overlapping pixels at negative coordinates
 in normalize_masks

---
 africanus/linalg/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 5e8bf9a..7792fa6 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -296,9 +296,10 @@ class BoundingConvexHull(object):
 
         # flatten for faster comparisons
         allmasks = np.array(allmasks)
+        minx = np.min(allmasks[:, 1])
         maxx = np.max(allmasks[:, 1])
-        nx = maxx + 1
-        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1]
+        nx = maxx - minx + 1
+        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1] - minx
 
         # now count the number of times a pixel is painted onto
         unique_pxls_flatten, paint_count = np.unique(
@@ -313,7 +314,7 @@ class BoundingConvexHull(object):
 
         # with the reduced number of overlap pixels unflatten
         unique_pxls = np.vstack(
-            [unique_pxls_flatten // nx, unique_pxls_flatten % nx]
+            [unique_pxls_flatten // nx, unique_pxls_flatten % nx + minx]
         ).T
         unique_pxls = list(map(tuple, unique_pxls))
         paint_count[...] = 1.0 / paint_count
-- 
2.43.0


From bd8fb8e119487f733310d7368267f073743dc4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 34/60] fix: reject regions outside the image along the right
 axes in regional_data

---
 africanus/linalg/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 7792fa6..2a32f97 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -198,8 +198,8 @@ class BoundingConvexHull(object):
         pad_top = max(0, maxy - data_cube.shape[axes[0]] + 1)
 
         if (
-            minx > data_cube.shape[axes[0]]
-            or miny > data_cube.shape[axes[1]]
+            minx >= data_cube.shape[axes[1]]
+            or miny >= data_cube.shape[axes[0]]
             or maxy < 0
             or maxx < 0
         ):
-- 
2.43.0


From 402dbc3346ba66fd94c797b74c571f99d2ef1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 35/60] fix: set regional_data outside the image or hull to
 oob_value

---
 africanus/linalg/geometry.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 2a32f97..e8e0a56 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -232,9 +232,8 @@ class BoundingConvexHull(object):
         new_shape[axes[1]] = maxx - minx + 1
 
         if any(np.array([pad_left, pad_bottom, pad_right, pad_top]) > 0):
-            padded_data = (
-                np.zeros(tuple(new_shape), dtype=selected_data.dtype)
-                * oob_value
+            padded_data = np.full(
+                tuple(new_shape), oob_value, dtype=selected_data.dtype
             )
             padded_data[tuple(slc_padded)] = selected_data.copy()
         else:
@@ -265,9 +264,9 @@ class BoundingConvexHull(object):
             axes,
         ):
             slc_mask[axis] = slice(start, end)
-        mask = sel_region.mask.copy()
-        mask[mask == 0] = oob_value
-        padded_data[tuple(slc_padded_data)] *= mask[tuple(slc_mask)]
+        mask = sel_region.mask[tuple(slc_mask)]
+        padded_data[tuple(slc_padded_data)] *= mask
+        padded_data[np.broadcast_to(mask == 0, padded_data.shape)] = oob_value
         window_extents = [minx, maxx, miny, maxy]
         return padded_data, window_extents
 
-- 
2.43.0


From a60b7478363d7db37e5fb6cdec1badcab293e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 36/60] fix: discard the filled mask when a sparse mask is set

---
 africanus/linalg/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index e8e0a56..c845b42 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -131,6 +131,7 @@ class BoundingConvexHull(object):
         else:
             self._mask = copy.deepcopy(mask)
         self._mask_weights = np.ones(len(self._mask))
+        self._cached_filled_mask = None
 
     @property
     def mask(self, dtype=np.float64):
@@ -570,7 +571,8 @@ class BoundingBox(BoundingConvexHull):
                 ),
             )
             self._mask = sparse_mask[sel]
-            self._mask_weights = np.ones(len(self._mask))
+        self._mask_weights = np.ones(len(self._mask))
+        self._cached_filled_mask = None
 
     @classmethod
     def project_regions(
-- 
2.43.0


From a8c4123c2d7bbeb43f2dc48238823e355c0d5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 37/60] fix: keep the hull inside its square bounding box

---
 africanus/linalg/geometry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index c845b42..ae8b4f9 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -676,10 +676,13 @@ class BoundingBoxFactory(object):
             boxdiam = max(nx, ny)
             boxrad = boxdiam // 2
             cx, cy = convex_hull_object.centre
-            xl = cx - boxrad
-            xu = cx + boxdiam - boxrad - 1
-            yl = cy - boxrad
-            yu = cy + boxdiam - boxrad - 1
+            # around the centre, as far as the box contains the hull
+            xu = np.max(convex_hull_object.corners[:, 0])
+            yu = np.max(convex_hull_object.corners[:, 1])
+            xl = np.clip(cx - boxrad, xu - boxdiam + 1, xu - nx + 1)
+            yl = np.clip(cy - boxrad, yu - boxdiam + 1, yu - ny + 1)
+            xu = xl + boxdiam - 1
+            yu = yl + boxdiam - 1
         else:
             xl = np.min(convex_hull_object.corners[:, 0])
             xu = np.max(convex_hull_object.corners[:, 0])
-- 
2.43.0


From 256e223e50dcd5ce1107aa91dd66c531ef9b71fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 38/60] fix: keep the box inside its padded box

---
 africanus/linalg/geometry.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index ae8b4f9..33f81ee 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -779,14 +779,15 @@ class BoundingBoxFactory(object):
         if desired_nx - nx < 0 or desired_ny - ny < 0:
             raise ValueError("Padded box must be bigger than original box")
         pad_left = desired_nx // 2
-        pad_right = desired_nx - pad_left - 1
         pad_bottom = desired_ny // 2
-        pad_top = desired_ny - pad_bottom - 1
         cx, cy = bounding_box_object.centre
-        xl = cx - pad_left
-        xu = cx + pad_right
-        yl = cy - pad_bottom
-        yu = cy + pad_top
+        # around the centre, as far as the padded box contains the box
+        xu = np.max(bounding_box_object.corners[:, 0])
+        yu = np.max(bounding_box_object.corners[:, 1])
+        xl = np.clip(cx - pad_left, xu - desired_nx + 1, xu - nx + 1)
+        yl = np.clip(cy - pad_bottom, yu - desired_ny + 1, yu - ny + 1)
+        xu = xl + desired_nx - 1
+        yu = yl + desired_ny - 1
         return BoundingBox(
             xl,
             xu,
-- 
2.43.0


From 38ab4a0fd8dd2f4eac01428c70a71ad589a48381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 39/60] fix: split boxes into sub-boxes that cover them once

---
 africanus/linalg/geometry.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 33f81ee..ccb1aa9 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -716,12 +716,9 @@ class BoundingBoxFactory(object):
         yu = np.max(bounding_box_object.corners[:, 1])
 
         # construct a nonregular meshgrid bound to xu and yu
-        x = xl + np.arange(0, nsubboxes + 1) * int(
-            np.ceil((xu - xl + 1) / float(nsubboxes))
-        )
-        y = yl + np.arange(0, nsubboxes + 1) * int(
-            np.ceil((yu - yl + 1) / float(nsubboxes))
-        )
+        # (sizes differ by at most one pixel)
+        x = xl - np.arange(0, nsubboxes + 1) * -(xu - xl + 1) // nsubboxes
+        y = yl - np.arange(0, nsubboxes + 1) * -(yu - yl + 1) // nsubboxes
         xx, yy = np.meshgrid(x, y)
 
         # split into boxes
@@ -734,11 +731,6 @@ class BoundingBoxFactory(object):
         xus = xus - 1
         yus = yus - 1
 
-        # clamp the final coordinate to the upper end
-        # (may result in rectanglular box at the end)
-        xus[:, -1] = max(xu, min(xus[0, -1], xu))
-        yus[-1, :] = max(yu, min(yus[-1, 0], yu))
-
         # coordinates for all the contained boxes, anti-clockwise wound
         xls = xls.ravel()
         yls = yls.ravel()
-- 
2.43.0


From a29675cf9a0c8aeb04407b0a59d4154408709094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 40/60] fix: solve the tridiagonal system of cubic splines

---
 africanus/averaging/splines.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 983c0cf..4a8a54e 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -34,29 +34,30 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     if left_type == 2:
         diag[0, A] = 0.0
         diag[0, B] = 2.0
-        diag[0, C] = left_value
+        diag[0, C] = 0.0
+        v[0] = left_value
     elif left_type == 1:
-        diag[0, A] = 1.0 * (x[1] - x[0])
         diag[0, B] = 2.0 * (x[1] - x[0])
+        diag[0, C] = 1.0 * (x[1] - x[0])
         v[0] = 3.0 * (-left_value + (y[1] - y[0]) / (x[1] - x[0]))
     else:
         raise ValueError("left_type not in (1, 2)")
 
     # Configure right endpoint
     if right_type == 2:
+        diag[n-1, A] = 0.0
         diag[n-1, B] = 2.0
-        diag[n-1, C] = 0.0
         v[n-1] = right_value
-    elif left_type == 1:
+    elif right_type == 1:
+        diag[n-1, A] = 1.0 * (x[n-1] - x[n-2])
         diag[n-1, B] = 2.0 * (x[n-1] - x[n-2])
-        diag[n-1, C] = 1.0 * (x[n-1] - x[n-2])
         v[n-1] = 3.0 * (right_value - (y[n-1] - y[n-2]) / (x[n-1] - x[n-2]))
     else:
         raise ValueError("right_type not in (1, 2)")
 
     # Solve tridiagonal system in place
     for i in range(1, n):
-        w = diag[i, A] - diag[i-1, B]
+        w = diag[i, A] / diag[i-1, B]
         diag[i, B] -= w*diag[i-1, C]
         v[i] -= w*v[i-1]
 
@@ -64,7 +65,7 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     z = np.zeros_like(v)
     z[n-1] = v[n-1] / diag[n-1, B]
 
-    for i in range(n - 1, -1, -1):
+    for i in range(n - 2, -1, -1):
         z[i] = (v[i] - diag[i, C]*z[i+1])/diag[i, B]
 
     return z
@@ -84,7 +85,7 @@ def fit_cubic_spline(x, y, left_type=2, right_type=2,
         c[i] = ((y[i+1] - y[i]) / (x[i+1] - x[i]) -
                 (2.0*b[i] + b[i+1]) * (x[i+1] - x[i]) / 3.0)
 
-    h = x[n-2] - x[n-1]
+    h = x[n-1] - x[n-2]
     a[n-1] = 0
     c[n-1] = 3.0*a[n-2]*h*h + 2.0*b[n-2]*h + c[n-2]
 
-- 
2.43.0


From ea94aa295b612df64bc6fbd18b974852c9d28f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 41/60] fix: extrapolate splines beyond their knots

---
 africanus/averaging/splines.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 4a8a54e..99cd333 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -100,7 +100,7 @@ def evaluate_spline(spline, x, order=0):
     mb0 = mb[0] if not force_linear_extrapolation else 0.0
     mc0 = mc[0]
 
-    n = x.shape[0]
+    n = mx.shape[0]
     values = np.empty_like(x)
 
     if order == 0:
@@ -108,9 +108,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = (mb0*h + mc0)*h + my[0]
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = (mb[n-1]*h + mc[n-1])*h + my[n-1]
             else:
                 values[i] = ((ma[j]*h + mb[j])*h + mc[j])*h + my[j]
@@ -120,9 +120,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = 2.0*mb0*h + mc0
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]*h + mc[n-1]
             else:
                 values[i] = (3.0*ma[j]*h + 2.0*mb[j])*h + mc[j]
@@ -131,9 +131,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
-                values[i] = 2.0*mb0*h
-            elif p > x[n-1]:
+            if p < mx[0]:
+                values[i] = 2.0*mb0
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]
             else:
                 values[i] = 6.0*ma[j]*h + 2.0*mb[j]
-- 
2.43.0


From cc417bb5a41f6fa0171770e68f46ef26559cdd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 42/60] fix: kronecker products of complex or large factors

---
 africanus/linalg/kronecker_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 811d75a..d8bdec9 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -81,8 +81,8 @@ def kron_tensorvec(A, b):
     """
     D = A.shape[0]
     # get shape of sub-matrices
-    G = np.zeros(D, dtype=np.int8)
-    M = np.zeros(D, dtype=np.int8)
+    G = np.zeros(D, dtype=np.int64)
+    M = np.zeros(D, dtype=np.int64)
     for d in range(D):
         M[d], G[d] = A[d].shape
     x = b
@@ -119,7 +119,7 @@ def kron_matmat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(B, *A))
     for i in range(M):
         C[:, i] = kron_matvec(A, B[:, i])
     return C
@@ -148,7 +148,7 @@ def kron_tensormat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(B, *A))
     for i in range(M):
         C[:, i] = kron_tensorvec(A, B[:, i])
     return C
-- 
2.43.0


From d8291ebfba01065359cac9cbb6c2d60e79a1c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 43/60] fix: raise the intended exceptions in
 exponential_squared

---
 africanus/gps/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/gps/kernels.py b/africanus/gps/kernels.py
index 1125048..11191b8 100644
--- a/africanus/gps/kernels.py
+++ b/africanus/gps/kernels.py
@@ -33,13 +33,13 @@ def exponential_squared(x, xp, sigmaf, l, pspec=False):  # noqa: E741
     if pspec:
         N, D = x.shape
         if D != 1:
-            raise(NotImplementedError, "Only 1D pspecs supported")
+            raise NotImplementedError("Only 1D pspecs supported")
         if (x != xp).any():
-            raise(ValueError, "pspec only defined if x = xp")
+            raise ValueError("pspec only defined if x = xp")
         x = x.squeeze()
         delx = x[1] - x[0]
         if (x[1::] - x[0:-1] != delx).any():
-            raise(ValueError, "pspec only defined on regular grid")
+            raise ValueError("pspec only defined on regular grid")
         s = np.fft.fftshift(np.fft.fftfreq(N, d=delx))
         return np.sqrt(2*np.pi*l)*sigmaf**2.0*np.exp(-l**2*s**2/2.0)
     else:
-- 
2.43.0


From f136b5429da5e29c8162274e8d5c073c0baec4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 44/60] fix: do not exceed the iteration limit of hogbom_clean

---
 africanus/deconv/hogbom/clean.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/deconv/hogbom/clean.py b/africanus/deconv/hogbom/clean.py
index eaf2ec8..f221d20 100644
--- a/africanus/deconv/hogbom/clean.py
+++ b/africanus/deconv/hogbom/clean.py
@@ -172,7 +172,7 @@ def hogbom_clean(dirty, psf,
     # CLEAN the image
     i = 0
 
-    while np.abs(intensity) > threshold and i <= niter:
+    while np.abs(intensity) > threshold and i < niter:
         logging.info("min %f max %f peak %f threshold %f" %
                      (residuals.min(), residuals.max(), intensity, threshold))
 
@@ -184,8 +184,8 @@ def hogbom_clean(dirty, psf,
         p, q, _, _, intensity = find_peak(residuals)
         # Increment counter
         i += 1
-        # Warn if niter exceeded
-        if i > niter:
+        # Warn if niter reached
+        if i >= niter:
             logging.warn("Number of iterations exceeded")
             logging.warn("Minimum residuals = %s", residuals.max())
 
-- 
2.43.0


From 85bfab5c34d0bbd48cf94c52f4d49209fc77c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 45/60] fix: rotate baselines with their own coordinates

---
 .../policies/baseline_transform_policies.py                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e09b9cc..e7d10fc 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -44,9 +44,10 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     mat_31 = c_new_dec * s_d_ra
     mat_32 = -c_new_dec * s_old_dec * c_d_ra + s_new_dec * c_old_dec
     mat_33 = c_new_dec * c_old_dec * c_d_ra + s_new_dec * s_old_dec
-    uvw[0] = mat_11 * uvw[0] + mat_12 * uvw[1] + mat_13 * uvw[3]
-    uvw[1] = mat_21 * uvw[0] + mat_22 * uvw[1] + mat_23 * uvw[3]
-    uvw[2] = mat_31 * uvw[0] + mat_32 * uvw[1] + mat_33 * uvw[3]
+    u, v, w = uvw[0], uvw[1], uvw[2]
+    uvw[0] = mat_11 * u + mat_12 * v + mat_13 * w
+    uvw[1] = mat_21 * u + mat_22 * v + mat_23 * w
+    uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-- 
2.43.0


From 77be312792425dab18b4d632b3fb17a3e3dc80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 46/60] fix: do not rotate the caller's baselines and
 visibilities in the polyhedron gridder

---
 africanus/gridding/perleypolyhedron/gridder.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 0acbeef..1d0905c 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -80,8 +80,10 @@ def gridder(uvw,
     for r in range(nrow):
         ra0, dec0 = phase_centre
         ra, dec = image_centre
-        ptp.policy(vis[r, :, :],
-                   uvw[r, :],
+        row_vis = vis[r:r + 1, :, :].copy()
+        row_uvw = uvw[r, :].copy()
+        ptp.policy(row_vis[0, :, :],
+                   row_uvw,
                    wavelengths,
                    ra0,
                    dec0,
@@ -89,12 +91,12 @@ def gridder(uvw,
                    dec,
                    policy_type=literally(phase_transform_policy),
                    phasesign=1.0)
-        btp.policy(uvw[r, :], ra0, dec0, ra, dec,
+        btp.policy(row_uvw, ra0, dec0, ra, dec,
                    literally(baseline_transform_policy))
         for c in range(nvischan):
-            scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-            scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-            scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+            scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+            scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+            scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
             grid = gridstack[chanmap[c], :, :]
             wt_ch[chanmap[c]] += cp.policy(
                 scaled_u,
@@ -102,8 +104,8 @@ def gridder(uvw,
                 scaled_w,
                 npix,
                 grid,
-                vis,
-                r,
+                row_vis,
+                0,
                 c,
                 convolution_kernel,
                 convolution_kernel_width,
-- 
2.43.0


From b49a7f694b72a953864f0010d39bf126442e5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 47/60] fix: degrid facets at the baselines they are gridded at

---
 africanus/gridding/perleypolyhedron/degridder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/degridder.py b/africanus/gridding/perleypolyhedron/degridder.py
index d8d35cb..a3990df 100644
--- a/africanus/gridding/perleypolyhedron/degridder.py
+++ b/africanus/gridding/perleypolyhedron/degridder.py
@@ -38,12 +38,13 @@ def degridder_row_kernel(uvw,
                          r=0):
     ra0, dec0 = phase_centre
     ra, dec = image_centre
-    btp.policy(uvw[r, :], ra, dec, ra0, dec0,
+    row_uvw = uvw[r, :].copy()
+    btp.policy(row_uvw, ra0, dec0, ra, dec,
                baseline_transform_policy)
     for c in range(nvischan):
-        scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-        scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-        scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+        scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+        scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+        scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
         grid = gridstack[chanmap[c], :, :]
         cp.policy(scaled_u,
                   scaled_v,
-- 
2.43.0


From 40a4d5732b705269f28a29d4268d3804e3afa183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 48/60] fix: degrid each facet at its own centre in dask

---
 africanus/gridding/perleypolyhedron/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 52a3116..4dd100b 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -67,7 +67,7 @@ def __degrid(uvw,
                        lambdas,
                        chanmap,
                        cell,
-                       image_centres,
+                       f,
                        phase_centre,
                        convolution_kernel,
                        convolution_kernel_width,
-- 
2.43.0


From 6edac17ede36862e96faf11f7d000787ac9f60df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 49/60] fix: grid and degrid all chunks in the dask polyhedron
 gridder

---
 africanus/gridding/perleypolyhedron/dask.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 4dd100b..d460d3a 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -34,7 +34,6 @@ def __degrid(uvw,
              convolution_policy=None,
              vis_dtype=np.complex128,
              rowparallel=False):
-    image_centres = image_centres[0][0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image centres, "
@@ -42,14 +41,10 @@ def __degrid(uvw,
         )
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
-    uvw = uvw[0]
     if uvw.ndim != 2 or uvw.shape[1] != 3:
         raise ValueError("UVW array must be nrow x 3")
-    gridstack = gridstack[0][0][0][0]
     if gridstack.ndim != 4:
         raise ValueError("Gridstack must be nfacet x nband x ny x nx")
-    lambdas = lambdas
-    chanmap = chanmap
     if chanmap.size != lambdas.size:
         raise ValueError(
             "Chanmap and corresponding lambdas must match in shape")
@@ -162,6 +157,7 @@ def degridder(uvw,
         convolution_policy=convolution_policy,
         cell=cell,
         phase_centre=phase_centre,
+        concatenate=True,
         vis_dtype=vis_dtype,
         new_axes={
             "corr":
@@ -193,7 +189,6 @@ def __grid(uvw,
            phase_centre=None,
            grid_dtype=np.complex128,
            do_normalize=False):
-    image_centres = image_centres[0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image "
@@ -202,10 +197,6 @@ def __grid(uvw,
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
 
-    uvw = uvw[0]
-    vis = vis[0][0]
-    lambdas = lambdas[0]
-    chanmap = chanmap[0]
     grid_stack = np.zeros(
         (1, image_centres.shape[0], 1, np.max(chanmap) + 1, npix, npix),
         dtype=grid_dtype)
@@ -298,6 +289,7 @@ def gridder(uvw,
         npix=npix,
         cell=cell,
         phase_centre=phase_centre,
+        concatenate=True,
         grid_dtype=grid_dtype,
         do_normalize=do_normalize,
         # goes to one set of grids per row chunk
-- 
2.43.0


From a39464f11a62477648bb62a70bd0f74b43dc6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 50/60] fix: discard samples outside the grid in nearest
 neighbour gridding

---
 .../perleypolyhedron/policies/convolution_policies.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
index b0308a9..0f6f050 100644
--- a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
@@ -139,9 +139,10 @@ def convolve_nn_scatter(scaled_u, scaled_v, scaled_w, npix, grid, vis, r, c,
     disc_u = int(np.round(offset_u))
     disc_v = int(np.round(offset_v))
     cw = 1.0
-    grid[disc_v, disc_u] += \
-        scp.corr2stokes(vis[r, c, :],
-                        stokes_conversion_policy)
+    if disc_v >= 0 and disc_v < npix and disc_u >= 0 and disc_u < npix:
+        grid[disc_v, disc_u] += \
+            scp.corr2stokes(vis[r, c, :],
+                            stokes_conversion_policy)
     return cw
 
 
-- 
2.43.0


From c7094520db2eb411c64bd902dde5897d5f3208ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:46 +0000
Subject: [PATCH 51/60] fix: compile the wlinapprox baseline policy

---
 .../perleypolyhedron/policies/baseline_transform_policies.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e7d10fc..638a7ba 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -1,4 +1,4 @@
-from africanus.util.numba import jit, overload
+from africanus.util.numba import overload
 from numpy import cos, sin
 
 
@@ -50,7 +50,6 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
-@jit(nopython=True, nogil=True, fastmath=True, parallel=False)
 def uvw_planarwapprox(uvw, ra0, dec0, ra, dec, policy_type):
     '''
         Implements the coordinate uv transform associated with taking a planar
-- 
2.43.0


From b15e00fe227224ea49e78c49bca2c3df0033e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:46 +0000
Subject: [PATCH 52/60] fix: sum unnormalised grids over row chunks in the dask
 polyhedron gridder

---
 africanus/gridding/perleypolyhedron/dask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index d460d3a..c0f5f49 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -306,4 +306,6 @@ def gridder(uvw,
         meta=np.empty((0, 0, 0, 0, 0, 0), dtype=grid_dtype))
 
     # Parallel reduction over row dimension
-    return grids.mean(axis=0, split_every=2)
+    if do_normalize:
+        return grids.mean(axis=0, split_every=2)
+    return grids.sum(axis=0, split_every=2)
-- 
2.43.0


From 168e4afa8cb7276dfc7fd35d27e4bf2997236a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:27 +0000
Subject: [PATCH 53/60] fix: declare the frequency step of synthetic beams

---
 africanus/testing/beam_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/testing/beam_factory.py b/africanus/testing/beam_factory.py
index 653a6d6..8b382b2 100644
--- a/africanus/testing/beam_factory.py
+++ b/africanus/testing/beam_factory.py
@@ -54,7 +54,7 @@ def beam_factory(polarisation_type='linear',
     gfrequency = np.linspace(frequency[0], frequency[-1],
                              33, dtype=np.float64)
     bandwidth = gfrequency[-1] - frequency[0]
-    bandwidth_delta = bandwidth / gfrequency.shape[0]-1
+    bandwidth_delta = bandwidth / (gfrequency.shape[0] - 1)
 
     if polarisation_type == 'linear':
         CORR = LINEAR_CORRELATIONS
-- 
2.43.0


From 4aed6494aaaa8e84c98c7fed97a23a1cba29226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:27 +0000
Subject: [PATCH 54/60] fix: write synthetic beams in the requested dtype

---
 africanus/testing/beam_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/testing/beam_factory.py b/africanus/testing/beam_factory.py
index 8b382b2..7349719 100644
--- a/africanus/testing/beam_factory.py
+++ b/africanus/testing/beam_factory.py
@@ -148,7 +148,7 @@ def beam_factory(polarisation_type='linear',
     beam = np.cos(np.minimum(65*fq*1e-9*r, 1.0881))**3
 
     for filename in [f for ri_pair in filenames.values() for f in ri_pair]:
-        primary_hdu = fits.PrimaryHDU(beam, header=header)
+        primary_hdu = fits.PrimaryHDU(beam.astype(dtype), header=header)
         primary_hdu.writeto(filename, overwrite=overwrite)
 
     return filenames
-- 
2.43.0


From b2e66d7665971114a6e5e53011174ca316bd7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:36 +0000
Subject: [PATCH 55/60] fix: spectral_model rejected non-contiguous Stokes
 parameters without polarisation

---
 africanus/model/spectral/spec_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/spectral/spec_model.py b/africanus/model/spectral/spec_model.py
index 07e7454..54dc90b 100644
--- a/africanus/model/spectral/spec_model.py
+++ b/africanus/model/spectral/spec_model.py
@@ -88,7 +88,7 @@ def add_pol_dim_factory(have_pol_dim):
             return array
     else:
         def impl(array):
-            return array.reshape(array.shape + (1,))
+            return np.expand_dims(array, -1)
 
     return njit(nogil=True, cache=True)(impl)
 
-- 
2.43.0


From 9bfc4d511947ea6d446eb06f1be2af2ae04cd33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:36 +0000
Subject: [PATCH 56/60] fix: beam_cube_dde rejected non-contiguous beams

---
 africanus/rime/fast_beam_cubes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/fast_beam_cubes.py b/africanus/rime/fast_beam_cubes.py
index e3ceb6b..8366118 100644
--- a/africanus/rime/fast_beam_cubes.py
+++ b/africanus/rime/fast_beam_cubes.py
@@ -90,7 +90,8 @@ def beam_cube_dde(beam, beam_lm_extents, beam_freq_map,
     zero = ex_dtype.type(0)
 
     # Flatten the beam on correlation
-    fbeam = beam.reshape((beam_lw, beam_mh, beam_nud, ncorrs))
+    fbeam = np.ascontiguousarray(beam).reshape((beam_lw, beam_mh,
+                                                beam_nud, ncorrs))
 
     # Allocate output array with correlations flattened
     fjones = np.empty((nsrc, ntime, nants, nchan, ncorrs), dtype=beam.dtype)
-- 
2.43.0


From ecb533bb71a57dbab1cb1eb7dcbe5a66b1825fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:19 +0000
Subject: [PATCH 57/60] Revert "fix: write synthetic beams in the requested
 dtype"

This reverts commit 4aed6494aaaa8e84c98c7fed97a23a1cba29226e.
---
 africanus/testing/beam_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/testing/beam_factory.py b/africanus/testing/beam_factory.py
index 7349719..8b382b2 100644
--- a/africanus/testing/beam_factory.py
+++ b/africanus/testing/beam_factory.py
@@ -148,7 +148,7 @@ def beam_factory(polarisation_type='linear',
     beam = np.cos(np.minimum(65*fq*1e-9*r, 1.0881))**3
 
     for filename in [f for ri_pair in filenames.values() for f in ri_pair]:
-        primary_hdu = fits.PrimaryHDU(beam.astype(dtype), header=header)
+        primary_hdu = fits.PrimaryHDU(beam, header=header)
         primary_hdu.writeto(filename, overwrite=overwrite)
 
     return filenames
-- 
2.43.0


From d43dd48cff8414fb9cdc1a02d3bda3ee490915d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:19 +0000
Subject: [PATCH 58/60] Revert "fix: declare the frequency step of synthetic
 beams"

This reverts commit 168e4afa8cb7276dfc7fd35d27e4bf2997236a21.
---
 africanus/testing/beam_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/testing/beam_factory.py b/africanus/testing/beam_factory.py
index 8b382b2..653a6d6 100644
--- a/africanus/testing/beam_factory.py
+++ b/africanus/testing/beam_factory.py
@@ -54,7 +54,7 @@ def beam_factory(polarisation_type='linear',
     gfrequency = np.linspace(frequency[0], frequency[-1],
                              33, dtype=np.float64)
     bandwidth = gfrequency[-1] - frequency[0]
-    bandwidth_delta = bandwidth / (gfrequency.shape[0] - 1)
+    bandwidth_delta = bandwidth / gfrequency.shape[0]-1
 
     if polarisation_type == 'linear':
         CORR = LINEAR_CORRELATIONS
-- 
2.43.0


From 94e0db367263c9498bd6867200ce6b58eff29b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:48 +0000
Subject: [PATCH 59/60] fix: project_regions overwrote NaNs in the caller's
 arrays

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index ccb1aa9..786f304 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -624,7 +624,7 @@ class BoundingBox(BoundingConvexHull):
 
         combined_mask = []
         for f, freg in zip(regional_data_list, regions_list):
-            f[np.isnan(f)] = 0
+            f = np.where(np.isnan(f), 0, f)
             xl = max(0, global_offsetx + np.min(freg.corners[:, 0]))
             xu = min(global_offsetx + np.max(freg.corners[:, 0]) + 1, npxx)
             yl = max(0, global_offsety + np.min(freg.corners[:, 1]))
-- 
2.43.0


From 933289285fd1a98ae103b00a4c535652a66fa248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:48 +0000
Subject: [PATCH 60/60] fix: convert irregular beam grids in degrees to radians

---
 africanus/util/beams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/util/beams.py b/africanus/util/beams.py
index 4eb5479..c735fe7 100644
--- a/africanus/util/beams.py
+++ b/africanus/util/beams.py
@@ -93,6 +93,9 @@ class BeamAxes(FitsAxes):
                 self._crval[i] = np.deg2rad(self._crval[i])
                 self._cdelt[i] = np.deg2rad(self._cdelt[i])
 
+                if self._irreg[i]:
+                    irregular_grid[i] = np.deg2rad(irregular_grid[i])
+
             # Set up the grid
             self._grid[i] = (_regular_grid(i) if not self._irreg[i]
                              else irregular_grid[i])
-- 
2.43.0

