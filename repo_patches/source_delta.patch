From 0fdd30b34de80271efbc2d013f6a34a67fc81a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 01/26] fix: noise variance after downsampling by a
 near-integer factor

The weights of the floor(f) - 1 whole samples contribute k - 1 to the variance
of an output sample, not (k - 1)^2. S/N values were underestimated by up to
sqrt(k) whenever the downsampling factor was close to an integer k >= 3.
---
 riptide/cpp/downsample.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index f0d780d..541aa53 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -34,7 +34,7 @@ double downsampled_variance(size_t num_samples, double f)
     if (x > 1)
         return f - 1.0 / 3.0;
     else
-        return pow(k-1, 2) + 2.0/3.0 * pow(x, 2) - x + 1.0;
+        return (k - 1.0) + 2.0/3.0 * pow(x, 2) - x + 1.0;
     }
 
 
-- 
2.43.0


From 918eca97426293a915110b39bf995c2ef9f07154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 02/26] fix: circular_prefix_sum() binding must allocate nsum
 output elements

It allocated as many elements as the input, and so wrote past the end of the
output for nsum > size, and returned uninitialised elements for nsum < size.
---
 riptide/cpp/python_bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index dfd45da..b8d161f 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,7 +75,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    auto arr_output = new_cstyle_array<float>({size});
+    auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
 }
-- 
2.43.0


From cbc68e19c906910f5131fc403544e4788b81251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 03/26] fix: stack overflow in S/N calculation of profiles with
 many bins

snr1() kept its work buffer in a variable-length array on the stack, and
crashed the interpreter for profiles with more than about 1M bins.
---
 riptide/cpp/snr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7f8ab73..c3663be 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <memory>
 
 #include "block.hpp"
 #include "kernels.hpp"
@@ -37,7 +38,9 @@ output must have capacity for num_widths elements.
 void snr1(const float* __restrict__ arr, size_t size, const size_t* widths, size_t num_widths, float stdnoise, float* __restrict__ out)
     {
     const size_t wmax = *std::max_element(widths, widths + num_widths);
-    float cpfsum[size + wmax];
+    // NOTE: allocate on the heap, a large number of bins would overflow the stack
+    std::unique_ptr<float[]> cpfsum_mem(new float[size + wmax]);
+    float* cpfsum = cpfsum_mem.get();
     circular_prefix_sum(arr, size, size + wmax, cpfsum);
     const float sum = cpfsum[size - 1]; // sum of input array
 
-- 
2.43.0


From 67f2084fbd01356951d80cbc0805323d17251e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 04/26] fix: periodogram() must reject invalid trial pulse
 widths

Without any width trial it dereferenced the end of an empty array and crashed,
with width trials >= bins_min it returned S/N values that are not numbers.
---
 riptide/cpp/python_bindings.cpp | 1 +
 riptide/cpp/snr.hpp             | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index b8d161f..2832861 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -193,6 +193,7 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
     auto widths = arr_widths.unchecked<1>();
     size_t num_widths = widths.size();
 
+    riptide::check_trial_widths(widths.data(0), num_widths, bins_min);
     size_t length = riptide::periodogram_length(size, tsamp, period_min, period_max, bins_min, bins_max);
 
     auto periods = new_cstyle_array<double>({length});
diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index c3663be..6d2063a 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -18,17 +18,17 @@ void check_stdnoise(float stdnoise)
         throw std::invalid_argument("stdnoise must be > 0");
     }
 
-// Check that all trial widths are > 0 and < bins; throw std::invalid_argument if that is not the case
+// Check that there is at least one trial width, and that all are > 0 and < bins; throw std::invalid_argument if that is not the case
 void check_trial_widths(const size_t* widths, size_t num_widths, size_t bins)
     {
-    bool b = std::all_of(
+    bool b = num_widths > 0 && std::all_of(
         widths, 
         widths + num_widths, 
         [bins](size_t w){return (w > 0) & (w < bins);}
         );
 
     if (!b)
-        throw std::invalid_argument("trial widths must be all > 0 and < columns");
+        throw std::invalid_argument("there must be at least one trial width, and all must be > 0 and < columns");
     }
 
 /*
-- 
2.43.0


From 2f004641c35ba6d05de38eefa05e06255af3ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 05/26] fix: stop the search when period_max exceeds the
 longest allowable period

As documented, the search should stop on its own when the longest allowable
trial period is reached. Instead, periodogram() raised an exception about the
downsampling factor if period_max was longer than about bins_min times the data.
---
 riptide/cpp/periodogram.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index bcea0ea..a9f67a6 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -89,12 +89,16 @@ size_t periodogram_length(
         const double period_max_samples = period_max / tau;
         const size_t n = downsampled_size(size, f); // current number of input samples
 
+        // Longest allowable trial period has been reached
+        if (n < bins_min)
+            break;
+
         // Min and max number of bins with which to FFA transform in order to
         // cover all trial periods between period_min and period_max.
         // NOTE: bstop is INclusive
         // Also, we MUST enforce bstop <= n, to avoid doing an FFA transform with 0 rows
         const size_t bstart = bins_min;
-        const size_t bstop = std::min({ bins_max, n, size_t(period_max_samples) });
+        const size_t bstop = std::min({ bins_max, n, size_t(std::min(period_max_samples, bins_max + 1.0)) });
 
         /* FFA transform loop */
         for (size_t bins = bstart; bins <= bstop; ++bins)
@@ -157,6 +161,10 @@ void periodogram(
         const double period_max_samples = period_max / tau;
         const size_t n = downsampled_size(size, f); // current number of input samples
 
+        // Longest allowable trial period has been reached
+        if (n < bins_min)
+            break;
+
         // downsample() requires f > 1, but we still allow searching the data at their
         // original resolution.
         if (f == 1) {
@@ -172,7 +180,7 @@ void periodogram(
         // NOTE: bstop is INclusive
         // Also, we MUST enforce bstop <= n, to avoid doing an FFA transform with 0 rows
         const size_t bstart = bins_min;
-        const size_t bstop = std::min({ bins_max, n, size_t(period_max_samples) });
+        const size_t bstop = std::min({ bins_max, n, size_t(std::min(period_max_samples, bins_max + 1.0)) });
 
         /* FFA transform loop */
         for (size_t bins = bstart; bins <= bstop; ++bins)
-- 
2.43.0


From 2119c7be0fc4244f0e640bf131db30aaf27a1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 06/26] fix: fold() could return one sub-integration less than
 requested

m / (m / subints) may round down below subints.
---
 riptide/folding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/folding.py b/riptide/folding.py
index 78c8f08..8d46f66 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -78,4 +78,8 @@ def fold(ts, period, bins, subints=None):
     else:
         # vertical downsampling factor
         vf = m / subints
+        # NOTE: protect against rounding errors, which can otherwise cause
+        # floor(m / vf) to be equal to subints - 1
+        while m / vf < subints:
+            vf = np.nextafter(vf, 0.0)
         return downsample_vertical(folded, vf)
-- 
2.43.0


From 40d8caade82b4ba11ef57432cb7f99a78feeaac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 07/26] fix: fold() could lose the last full period because of
 rounding

nsamp / factor may round below a multiple of bins when the data length is a
whole number of periods, which even raised ZeroDivisionError when the period
was equal to the length of the data.
---
 riptide/folding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptide/folding.py b/riptide/folding.py
index 8d46f66..9f62528 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -62,6 +62,11 @@ def fold(ts, period, bins, subints=None):
             raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})")
 
     factor = tbin / ts.tsamp
+    # NOTE: protect against rounding errors, which can otherwise cause the loss
+    # of the last full period when the data length is a multiple of the period
+    nsamp_min = int(ts.length / period) * bins
+    while factor > 1 and ts.nsamp / factor < nsamp_min:
+        factor = np.nextafter(factor, 0.0)
     tsdown = ts.downsample(factor)
     m = tsdown.nsamp // bins
     nsamp_eff = m * bins
-- 
2.43.0


From fedb8e75db1572a12d4312b74a8a2574db46a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 08/26] fix: TimeSeries.normalise(inplace=True) must keep
 float32 data

---
 riptide/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ebeb294..928698b 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -85,7 +85,7 @@ class TimeSeries(object):
         norm = v ** 0.5
         
         if inplace:
-            self._data = (self.data - m) / norm
+            self._data = ((self.data - m) / norm).astype(np.float32)
         else:
             return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From d9139cc20850a5ef1392ceb99684f7e0cab91a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 09/26] fix: TimeSeries.downsample(inplace=True) must update
 metadata tobs

---
 riptide/time_series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index 928698b..1aad3e1 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -141,6 +141,7 @@ class TimeSeries(object):
         if inplace:
             self._data = downsample(self.data, factor)
             self._tsamp *= factor
+            self.metadata['tobs'] = self.length
         else:
             return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 07dfc271aee4e25a4fa9c5f1f869b68fc8649530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 10/26] fix: find_peaks() crashed on a periodogram with a
 single period trial

---
 riptide/peak_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/peak_detection.py b/riptide/peak_detection.py
index 1949504..ac710e2 100644
--- a/riptide/peak_detection.py
+++ b/riptide/peak_detection.py
@@ -68,7 +68,8 @@ def segment_stats(f, s, T, segwidth=5.0):
     #log.debug("Segment width (Hz): {:.6f}".format(w))
 
     # NOTE: the spacing of frequency trials is almost constant
-    m = ceil(abs(f[-1] - f[0]) / w) # number of segments
+    # NOTE: there must be at least one segment, even if there is only one trial
+    m = max(1, ceil(abs(f[-1] - f[0]) / w)) # number of segments
     #log.debug("Segments: {:d}".format(m))
 
     p = len(f) // m # number of complete segments
-- 
2.43.0


From 69d5c9f72d1d945477f3b03299f32b91b1b0c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 11/26] fix: from_json() must return writable arrays

In-place methods of a TimeSeries loaded from JSON raised ValueError.
---
 riptide/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 122d778..aefe45d 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -88,7 +88,8 @@ def object_hook(items):
     if typename == 'numpy.ndarray':
         b64_bytes = items['data'].encode()
         data = base64.b64decode(b64_bytes)
-        return np.frombuffer(data, items['dtype']).reshape(items['shape'])
+        # NOTE: copy() is required because frombuffer() returns a read-only array
+        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
 
     # NOTE: decoding is done from the deepest nodes of the tree first
     # Which means items['values'] is already a numpy array here
-- 
2.43.0


From fc7b411a8fe6219b62c3033d66468f68ddc56318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 12/26] fix: to_json() must refuse arrays of python objects

It silently encoded the memory addresses of the objects.
---
 riptide/serialization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index aefe45d..ae6fd9a 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -32,6 +32,9 @@ class JSONEncoder(json.JSONEncoder):
 
         # See: https://stackoverflow.com/questions/27909658/json-encoder-and-decoder-for-complex-numpy-arrays
         if isinstance(obj, np.ndarray):
+            # NOTE: the buffer of an object array contains memory addresses
+            if obj.dtype.hasobject:
+                raise TypeError(f"Array of dtype {obj.dtype} is not JSON serializable")
             b64_bytes = base64.b64encode(np.ascontiguousarray(obj).data)
             b64_str = b64_bytes.decode()
             return {
-- 
2.43.0


From 8ece5157ea9a22262dd1cc3203ea8aa400f0c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 13/26] fix: plotting a Candidate with a single sub-integration

---
 riptide/candidate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 56fbe0e..b8288f7 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -223,6 +223,7 @@ def plot_subints(X, T):
     T : float
         Integration time in seconds
     """
+    X = np.atleast_2d(X) # Candidates with a single sub-integration have 1D data
     __, nbins = X.shape
 
     X = np.hstack((X, X[:, :nbins//2]))
-- 
2.43.0


From eff9f85b35e55d77d31fcc1ff0afa2daa72c1a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 14/26] fix: FFA row index calculation requires double
 precision

Single precision gives row indices beyond the end of the input blocks when
the number of rows exceeds 2^24, and rounds ties wrongly for m in the thousands.
---
 riptide/cpp/transforms.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/riptide/cpp/transforms.hpp b/riptide/cpp/transforms.hpp
index e093242..bb18d34 100644
--- a/riptide/cpp/transforms.hpp
+++ b/riptide/cpp/transforms.hpp
@@ -14,13 +14,15 @@ void merge(ConstBlock thead, ConstBlock ttail, Block out)
     {
     const size_t m = out.rows;
     const size_t p = out.cols;
-    const float kh = (thead.rows - 1.0f) / (m - 1.0f);
-    const float kt = (ttail.rows - 1.0f) / (m - 1.0f);
+    // NOTE: single precision is not enough, it causes rounding errors when m is
+    // in the thousands, and out of bounds row indices when m > 2^24
+    const double kh = (thead.rows - 1.0) / (m - 1.0);
+    const double kt = (ttail.rows - 1.0) / (m - 1.0);
 
     for (size_t s = 0; s < m; ++s)
         {
-        const size_t h = kh * s + 0.5f;
-        const size_t t = kt * s + 0.5f;
+        const size_t h = kh * s + 0.5;
+        const size_t t = kt * s + 0.5;
         const size_t b = s - (h + t);
         fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));
         }
-- 
2.43.0


From 6899f8e88c23bb80d70dfd5a38f31229bb2d0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 15/26] fix: fast_running_median() with an even window width
 and no scrunching

---
 riptide/running_medians.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptide/running_medians.py b/riptide/running_medians.py
index 97af9f6..9a90a9a 100644
--- a/riptide/running_medians.py
+++ b/riptide/running_medians.py
@@ -75,6 +75,9 @@ def fast_running_median(data, width_samples, min_points=101):
     scrunch_factor = int(max(1, width_samples / float(min_points)))
 
     if (scrunch_factor == 1):
+        # NOTE: the exact running median requires an odd window width
+        if width_samples > 0 and not (width_samples % 2):
+            width_samples += 1
         return running_median(data, width_samples)
 
     scrunched_data = scrunch(data, scrunch_factor)
-- 
2.43.0


From 11f7c90288c2ad4e48bd039a56fdf43b93c28881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 16/26] fix: rseek --rmed_minpts must be parsed as an integer

---
 riptide/apps/rseek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/apps/rseek.py b/riptide/apps/rseek.py
index 91ce8b8..1c17d72 100644
--- a/riptide/apps/rseek.py
+++ b/riptide/apps/rseek.py
@@ -54,7 +54,7 @@ def get_parser():
         help="Width (in seconds) of the running median filter to subtract from the input data before processing"
     )
     parser.add_argument(
-        "--rmed_minpts", type=float, default=101, 
+        "--rmed_minpts", type=int, default=101, 
         help=(
         "The running median is calculated of a time scrunched version of the"
         " input data to save time: rmed_minpts is the minimum number of"
-- 
2.43.0


From ab7ce09d8c3a634d8145e8b804bd8f44a87aa718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 17/26] fix: config validation must accept subints = null as
 documented

---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 3d0a298..6f79692 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -48,7 +48,9 @@ SEARCH_RANGE_SCHEMA = Schema({
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-        'subints': And(int, strictly_positive, error="candidates.subints must be an int > 0"),
+        'subints': Or(
+            And(int, strictly_positive), None,
+            error="candidates.subints must be an int > 0 or null/blank"),
         },
 })
 
-- 
2.43.0


From f8e8ad39bbd0351ed11cabf029c6f560246bec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 18/26] fix: config validation must reject clrad = null, which
 the search cannot use

---
 riptide/pipeline/config_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 6f79692..9bc663f 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -42,8 +42,8 @@ SEARCH_RANGE_SCHEMA = Schema({
             int, strictly_positive, error="minseg must be an int > 0"),
         Optional('polydeg'): And(
             Use(float), strictly_positive, error="polydeg must be a number > 0"),
-        Optional('clrad'): Or(
-            And(Use(float), strictly_positive), None, error="clrad must be a number > 0"),
+        Optional('clrad'): And(
+            Use(float), strictly_positive, error="clrad must be a number > 0"),
         },
 
     'candidates': {
-- 
2.43.0


From cce3ff7c0cde3501cb2a6cd7385a6a837fb4b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 19/26] fix: circular_prefix_sum must refuse an empty array
 instead of dividing by zero

---
 riptide/cpp/python_bindings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index 2832861..01f425c 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,6 +75,10 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
+    if (size < 1)
+    {
+        throw std::invalid_argument("Input array must have at least one element");
+    }
     auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
-- 
2.43.0


From a7c5f6a49a8fcfe8b670a1e814d2385b917fe3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 20/26] fix: config validation must accept an empty find_peaks
 section as documented

---
 riptide/pipeline/config_validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 9bc663f..0ab52ff 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -31,7 +31,8 @@ SEARCH_RANGE_SCHEMA = Schema({
             float, lambda x: 0 < x < 1, error='ducy_max must be strictly between 0 and 1'),
         },
 
-    'find_peaks': {
+    # NOTE: this section may be left empty (None once loaded from YAML)
+    'find_peaks': And(Use(lambda x: {} if x is None else x), {
         Optional('smin'): And(
             Use(float), strictly_positive, error="smin must be a number > 0"),
         Optional('segwidth'): And(
@@ -44,7 +45,7 @@ SEARCH_RANGE_SCHEMA = Schema({
             Use(float), strictly_positive, error="polydeg must be a number > 0"),
         Optional('clrad'): And(
             Use(float), strictly_positive, error="clrad must be a number > 0"),
-        },
+        }),
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-- 
2.43.0


From e68d5ef9e891e46af1ef2b778a648fe139e1d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 21/26] fix: do not dereference input arrays that are not
 aligned for their data type

---
 riptide/cpp/python_bindings.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index 01f425c..813ead5 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -30,8 +30,14 @@ py::array_t<T> new_cstyle_array(std::initializer_list<size_t> shape) {
 }
 
 
+// Type of array arguments. Inputs whose memory is not aligned for their data type (e.g. views
+// into a byte buffer) get copied to an aligned array, the kernels may not dereference them as is.
+template <typename T>
+using input_array_t = py::array_t<T, py::array::forcecast | py::detail::npy_api::NPY_ARRAY_ALIGNED_>;
+
+
 template<typename T>
-void assert_c_contiguous(py::array_t<T> arr)
+void assert_c_contiguous(const T& arr)
 {
     const bool b = arr.flags() & py::detail::npy_api::NPY_ARRAY_C_CONTIGUOUS_;
     if (!b)
@@ -41,7 +47,7 @@ void assert_c_contiguous(py::array_t<T> arr)
 }
 
 
-py::array_t<float> rollback(py::array_t<float> arr_x, size_t shift)
+py::array_t<float> rollback(input_array_t<float> arr_x, size_t shift)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
@@ -52,7 +58,7 @@ py::array_t<float> rollback(py::array_t<float> arr_x, size_t shift)
 }
 
 
-py::array_t<float> fused_rollback_add(py::array_t<float> arr_x, py::array_t<float> arr_y, size_t shift)
+py::array_t<float> fused_rollback_add(input_array_t<float> arr_x, input_array_t<float> arr_y, size_t shift)
 {
     if (arr_x.size() != arr_y.size())
     {
@@ -70,7 +76,7 @@ py::array_t<float> fused_rollback_add(py::array_t<float> arr_x, py::array_t<floa
 }
 
 
-py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
+py::array_t<float> circular_prefix_sum(input_array_t<float> arr_x, size_t nsum)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
@@ -85,7 +91,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
 }
 
 
-py::array_t<float> ffa2(py::array_t<float> arr_input)
+py::array_t<float> ffa2(input_array_t<float> arr_input)
 {
     assert_c_contiguous(arr_input);
     auto input = arr_input.unchecked<2>();
@@ -122,7 +128,7 @@ double benchmark_ffa2(size_t rows, size_t cols, size_t loops)
 }
 
 
-py::array_t<float> snr1(py::array_t<float> arr_x, py::array_t<size_t> arr_widths, float stdnoise)
+py::array_t<float> snr1(input_array_t<float> arr_x, input_array_t<size_t> arr_widths, float stdnoise)
 {
     assert_c_contiguous(arr_x);
     assert_c_contiguous(arr_widths);
@@ -142,7 +148,7 @@ py::array_t<float> snr1(py::array_t<float> arr_x, py::array_t<size_t> arr_widths
 }
 
 
-py::array_t<float> snr2(py::array_t<float> arr_x, py::array_t<size_t> arr_widths, float stdnoise)
+py::array_t<float> snr2(input_array_t<float> arr_x, input_array_t<size_t> arr_widths, float stdnoise)
 {
     assert_c_contiguous(arr_x);
     assert_c_contiguous(arr_widths);
@@ -164,7 +170,7 @@ py::array_t<float> snr2(py::array_t<float> arr_x, py::array_t<size_t> arr_widths
 }
 
 
-py::array_t<float> downsample(py::array_t<float> arr_x, double f)
+py::array_t<float> downsample(input_array_t<float> arr_x, double f)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
@@ -182,9 +188,9 @@ py::array_t<float> downsample(py::array_t<float> arr_x, double f)
 
 
 std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > periodogram(
-    py::array_t<float> arr_data,
+    input_array_t<float> arr_data,
     double tsamp,
-    py::array_t<size_t> arr_widths,
+    input_array_t<size_t> arr_widths,
     double period_min,
     double period_max,
     size_t bins_min,
@@ -214,7 +220,7 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
 }
 
 
-py::array_t<float> running_median(py::array_t<float> arr_x, size_t width)
+py::array_t<float> running_median(input_array_t<float> arr_x, size_t width)
 {
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
-- 
2.43.0


From 91a6ab4f7b1a6ddc051e2e148b8090d7c25f65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 22/26] fix: boxcar_snr() refuses a noise level that is not a
 number

---
 riptide/libffa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/libffa.py b/riptide/libffa.py
index f2d8884..f81904d 100644
--- a/riptide/libffa.py
+++ b/riptide/libffa.py
@@ -212,6 +212,10 @@ def boxcar_snr(data, widths, stdnoise=1.0):
         Output with the same shape as data, with an additional axis
         which represents trial pulse width index.
     """
+    # NOTE: the C++ code is compiled under the assumption that there are no NaNs
+    if not stdnoise > 0:
+        raise ValueError("stdnoise must be > 0")
+
     widths = np.asarray(widths, dtype=np.uint64)
 
     # Number of bins is the length of the last axis
-- 
2.43.0


From 088e35127d749d99be54bf79975c1f3f92db8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 23/26] fix: boxcar_snr() accepts profiles in any memory layout

---
 riptide/libffa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptide/libffa.py b/riptide/libffa.py
index f81904d..1d36ebc 100644
--- a/riptide/libffa.py
+++ b/riptide/libffa.py
@@ -221,8 +221,8 @@ def boxcar_snr(data, widths, stdnoise=1.0):
     # Number of bins is the length of the last axis
     b = data.shape[-1]
 
-    # Input to C++ function must be 2D
-    cppinput = data.reshape(-1, b).astype(np.float32)
+    # Input to C++ function must be 2D and contiguous
+    cppinput = np.ascontiguousarray(data.reshape(-1, b), dtype=np.float32)
     m = cppinput.shape[0]
     snr = libcpp.snr2(cppinput, widths, stdnoise)
     shape = list(data.shape[:-1]) + [widths.size]
-- 
2.43.0


From f71d374cd7ebb9fd5401859fad28145b08bb404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 24/26] fix: results of a Pipeline must not accumulate when it
 processes several sets of files

---
 riptide/pipeline/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/pipeline/pipeline.py b/riptide/pipeline/pipeline.py
index c0a1ee1..4396662 100644
--- a/riptide/pipeline/pipeline.py
+++ b/riptide/pipeline/pipeline.py
@@ -190,6 +190,7 @@ class Pipeline(object):
 
     @timing
     def cluster_peaks(self):
+        self.clusters = []
         if not self.peaks:
             log.info("No peaks found: skipping clustering")
             return
@@ -292,6 +293,7 @@ class Pipeline(object):
     @timing
     def build_candidates(self):
         log.info("Building candidates")      
+        self.candidates = []
         clusters_decreasing_snr = sorted(self.clusters_filtered, key=lambda c: c.centre.snr, reverse=True)
 
         if not clusters_decreasing_snr:
-- 
2.43.0


From bbbe9d1389fa9454ce3f1feb90dcf511a0a30b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 25/26] fix: plotting a Candidate whose metadata lack MJD,
 source name or coordinates

---
 riptide/candidate.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index b8288f7..523019c 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -168,14 +168,27 @@ def plot_table(params, tsmeta):
     """
     """
     plt.axis('off')
+    # NOTE: any of these metadata may be missing, i.e. None
+    na = 'N/A'
+    source_name = tsmeta['source_name']
+    if source_name is None:
+        source_name = na
+
     coord = tsmeta['skycoord']
-    ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
-    dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
+    if coord is not None:
+        ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
+        dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
+    else:
+        ra_hms = dec_hms = na
 
     # TODO: Check that the scale is actually UTC in the general case
     # PRESTO, SIGPROC and other packages may not have the same
     # date/time standard
-    obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+    if tsmeta['mjd'] is not None:
+        obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+        mjd_str, utc_str = f"{obsdate.mjd:.6f}", obsdate.iso
+    else:
+        mjd_str = utc_str = na
 
     blank = TableEntry(name='', value='', formatter='s', unit='')
 
@@ -186,11 +199,11 @@ def plot_table(params, tsmeta):
         TableEntry(name='Duty cycle', value=params['ducy'] * 100.0, formatter='.2f', unit='%'),
         TableEntry(name='S/N', value=params['snr'], formatter='.1f', unit=''),
         blank,
-        TableEntry(name='Source', value=tsmeta['source_name'], formatter='s', unit=''),
+        TableEntry(name='Source', value=source_name, formatter='s', unit=''),
         TableEntry(name='RA', value=ra_hms, formatter='s', unit=''),
         TableEntry(name='Dec', value=dec_hms, formatter='s', unit=''),
-        TableEntry(name='MJD', value=obsdate.mjd, formatter='.6f', unit=''),
-        TableEntry(name='UTC', value=obsdate.iso, formatter='s', unit=''),
+        TableEntry(name='MJD', value=mjd_str, formatter='s', unit=''),
+        TableEntry(name='UTC', value=utc_str, formatter='s', unit=''),
     ]
 
     y0 = 0.94  # Y coordinate of first line
-- 
2.43.0


From 2a9a5c0f80f4e90c817026432447e9e387cbf073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 26/26] fix: plotting a Candidate whose source name contains
 dollar signs

---
 riptide/candidate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 523019c..56c1dc8 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -173,6 +173,8 @@ def plot_table(params, tsmeta):
     source_name = tsmeta['source_name']
     if source_name is None:
         source_name = na
+    # NOTE: dollar signs would have the text interpreted as a math expression
+    source_name = source_name.replace('$', r'\$')
 
     coord = tsmeta['skycoord']
     if coord is not None:
-- 
2.43.0

