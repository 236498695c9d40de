From cb0cded7adceff53178d4ff2740cae0c070bfe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:45 +0000
Subject: [PATCH 1/6] fix: fold fractional bins of odd FFT lengths inside
 Nyquist

fold_bin_to_nyquist compared the wrapped bin with n_fft // 2. For odd lengths
a bin between n_fft // 2 and n_fft / 2 was mirrored out of the first zone, for
example bin 4.3 of 9 became 4.7.
---
 python/src/adctoolbox/fundamentals/frequency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/frequency.py b/python/src/adctoolbox/fundamentals/frequency.py
index ddabead..7b5cf87 100644
--- a/python/src/adctoolbox/fundamentals/frequency.py
+++ b/python/src/adctoolbox/fundamentals/frequency.py
@@ -162,7 +162,7 @@ def fold_bin_to_nyquist(bin_idx: float, n_fft: int) -> float:
     bin_idx = bin_idx % n_fft
 
     # For real signals, bins > n_fft/2 are mirrored
-    if bin_idx > n_fft // 2:
+    if bin_idx > n_fft / 2:
         bin_idx = n_fft - bin_idx
 
     return bin_idx
-- 
2.43.0


From ac4437930772d008270f6bf5a8ec08adf0fc48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:54 +0000
Subject: [PATCH 2/6] fix: report a missing fin in predict_spurs as the
 intended ValueError

---
 python/src/adctoolbox/timeinterleave/predict_spurs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/timeinterleave/predict_spurs.py b/python/src/adctoolbox/timeinterleave/predict_spurs.py
index 5138499..71ef9ad 100644
--- a/python/src/adctoolbox/timeinterleave/predict_spurs.py
+++ b/python/src/adctoolbox/timeinterleave/predict_spurs.py
@@ -60,9 +60,10 @@ def predict_spurs(
     A_in = float(params.get("A", 1.0))
 
     if fin is None:
-        fin = float(params.get("fin"))
+        fin = params.get("fin")
         if fin is None:
             raise ValueError("fin must be provided via argument or params['fin']")
+        fin = float(fin)
 
     M = gain.size
     if not (offset.size == M and skew.size == M):
-- 
2.43.0


From a1ecdc80e590d0ef5be29e6aff313ccdf3cf3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:23 +0000
Subject: [PATCH 3/6] fix: weight the Nyquist bin like the other bins when
 coherent averaging looks for the fundamental

---
 python/src/adctoolbox/spectrum/_spectrum_averaging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/adctoolbox/spectrum/_spectrum_averaging.py b/python/src/adctoolbox/spectrum/_spectrum_averaging.py
index 20f2f3c..c0c073b 100644
--- a/python/src/adctoolbox/spectrum/_spectrum_averaging.py
+++ b/python/src/adctoolbox/spectrum/_spectrum_averaging.py
@@ -82,6 +82,8 @@ def _coherent_average(
 
         # Get power spectrum for fundamental search
         fft_power = np.abs(fft_data[:N//2+1])**2
+        if N % 2 == 0:
+            fft_power[-1] /= 2.0
         n_inband = rfft_inband_bin_count(N, osr)
 
         fundamental_bin, fundamental_bin_frantional = _locate_fundamental(fft_power, n_inband)
-- 
2.43.0


From 30460be5b21104208e49423e19bd87a207468e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:16 +0000
Subject: [PATCH 4/6] fix: keep the mirror of the top bin in
 extract_freq_components for odd lengths

---
 python/src/adctoolbox/spectrum/extract_freq_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/extract_freq_components.py b/python/src/adctoolbox/spectrum/extract_freq_components.py
index 6ee06a3..960a8b5 100644
--- a/python/src/adctoolbox/spectrum/extract_freq_components.py
+++ b/python/src/adctoolbox/spectrum/extract_freq_components.py
@@ -63,7 +63,7 @@ def extract_freq_components(din, bands):
 
         # Set negative frequency bins (Hermitian symmetry)
         # Exclude DC (0) and Nyquist (N/2) to avoid double-setting
-        valid = ids[(ids > 0) & (ids < N // 2)]
+        valid = ids[(ids > 0) & (ids < N / 2)]
         mask[N - valid] = 1
 
     # Apply mask to all columns
-- 
2.43.0


From 7f910c92a71960d5ee96b06262ee83450ed1952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:15 +0000
Subject: [PATCH 5/6] fix: take the frequency step of weight calibration from
 its own column

The augmented system is laid out as weights, offsets, frequency
derivatives, harmonics, but the correction was read from the end of the
solution and the derivative entries were left among the harmonics.  The
sine-unity branch also missed the implicit unit coefficient, and the
second and later datasets were given one they do not have.
---
 .../adctoolbox/calibration/_lstsq_solver.py   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/src/adctoolbox/calibration/_lstsq_solver.py b/python/src/adctoolbox/calibration/_lstsq_solver.py
index ce951da..4c2a9e7 100644
--- a/python/src/adctoolbox/calibration/_lstsq_solver.py
+++ b/python/src/adctoolbox/calibration/_lstsq_solver.py
@@ -284,18 +284,18 @@ def _solve_weights_searching_freq(
             # For dataset k, find its harmonics in the coefficient vector
             if basis_choice_temp == 0:
                 # Cosine is unity: [weights, DC, cos[1:], sin[:]]
-                # cos[0] is implicit 1, cos[1:] are in coeffs
-                # For dataset k, cos harmonics are at columns k*harmonic_order : (k+1)*harmonic_order
-                h_idx = harmonic_start + k * (harmonic_order - 1)
-                cos_coeffs_k = np.concatenate([[1.0], coeffs_temp[h_idx : h_idx + harmonic_order - 1]])
+                # cos[0] (first dataset only) is implicit 1, cos[1:] are in coeffs
+                cos_coeffs = np.concatenate([[1.0], coeffs_temp[harmonic_start : harmonic_start + unity_harmonics_size]])
+                cos_coeffs_k = cos_coeffs[k * harmonic_order : (k + 1) * harmonic_order]
 
                 # Sin coefficients start after cos
                 sin_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
                 sin_coeffs_k = coeffs_temp[sin_idx : sin_idx + harmonic_order]
             else:
                 # Sine is unity: [weights, DC, sin[1:], cos[:]]
-                sin_idx = harmonic_start + (k * harmonic_order - 1)
-                sin_coeffs_k = coeffs_temp[sin_idx : sin_idx + harmonic_order]
+                # sin[0] (first dataset only) is implicit 1, sin[1:] are in coeffs
+                sin_coeffs = np.concatenate([[1.0], coeffs_temp[harmonic_start : harmonic_start + unity_harmonics_size]])
+                sin_coeffs_k = sin_coeffs[k * harmonic_order : (k + 1) * harmonic_order]
 
                 # Cos coefficients start after sin
                 cos_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
@@ -336,8 +336,9 @@ def _solve_weights_searching_freq(
             verbose=verbose,
         )
 
-        # Extract frequency corrections (last num_datasets elements)
-        delta_f_raw = coeffs[-num_datasets:]
+        # Split off the frequency corrections, which follow the weights and offsets
+        delta_f_raw = coeffs[harmonic_start : harmonic_start + num_datasets]
+        coeffs = np.concatenate([coeffs[:harmonic_start], coeffs[harmonic_start + num_datasets:]])
         delta_f_array = delta_f_raw * learning_rate / segment_lengths
 
         # Compute relative error using first harmonic magnitude for normalization
@@ -360,4 +361,4 @@ def _solve_weights_searching_freq(
         if relerr < reltol:
             break
 
-    return freq_array, coeffs[:-num_datasets], basis_choice, cos_basis, sin_basis
+    return freq_array, coeffs, basis_choice, cos_basis, sin_basis
-- 
2.43.0


From 84326c934d209ca466598872dd8dbd88ea4d3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:15 +0000
Subject: [PATCH 6/6] fix: give each dataset of a weight calibration its own
 fitted sine and offset

With several datasets the ideal sine of the second and later ones was
built from the wrong coefficients, their error used the first dataset's
offset, and the amplitude normalisation read the wrong entry of the
solution.
---
 .../adctoolbox/calibration/_post_process.py   | 32 +++++++++----------
 .../calibration/calibrate_weight_sine.py      |  2 +-
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/python/src/adctoolbox/calibration/_post_process.py b/python/src/adctoolbox/calibration/_post_process.py
index 66d43ae..39a48d7 100644
--- a/python/src/adctoolbox/calibration/_post_process.py
+++ b/python/src/adctoolbox/calibration/_post_process.py
@@ -31,7 +31,9 @@ def _post_process(
     # Copy weights for local modification (polarity enforcement)
     weights = weights_final.copy()
 
-    dc_offset = -solution_vector[bit_width_effective] / norm_factor
+    # One fitted offset per dataset; the first one is reported
+    dc_offsets = -solution_vector[bit_width_effective : bit_width_effective + num_datasets] / norm_factor
+    dc_offset = dc_offsets[0]
 
     # 3. Reconstruct per-dataset quantities
     harm_start = bit_width_effective + num_datasets
@@ -60,7 +62,7 @@ def _post_process(
         )
         
         # Performance metrics
-        err_k = sig_k - dc_offset - ref_k
+        err_k = sig_k - dc_offsets[k] - ref_k
         p_sig = np.mean(ref_k**2)
         p_noise = np.mean(err_k**2)
         sndr_k = 10 * np.log10(p_sig / p_noise) if p_noise > 0 else 200.0 # Cap max SNR
@@ -115,23 +117,19 @@ def _reconstruct_sine_k(
     # The size of the first half of harmonic columns (where one fund is unity)
     unity_side_size = num_harm_total - 1 
 
+    # Unity side: only the fundamental of the first dataset is implicit 1.0,
+    # all others are in solution_vector
+    unity_coeffs = np.concatenate([[1.0], solution_vector[harm_start : harm_start + unity_side_size]])
+    unity_coeffs_k = unity_coeffs[k * harmonic_order : (k + 1) * harmonic_order]
+
+    # Other side: all coeffs are in solution_vector, after the unity_side_size block
+    other_idx = harm_start + unity_side_size + k * harmonic_order
+    other_coeffs_k = solution_vector[other_idx : other_idx + harmonic_order]
+
     if basis_choice == 0:  # Cosine is unity
-        # Cosine coeffs: first one is implicit 1.0, others are in solution_vector
-        # Indices for dataset k: harm_start + k*(H-1) : harm_start + (k+1)*(H-1)
-        h_idx = harm_start + k * (harmonic_order - 1)
-        cos_coeffs_k = np.concatenate([[1.0], solution_vector[h_idx : h_idx + harmonic_order - 1]])
-        
-        # Sine coeffs: all are in solution_vector, after the unity_side_size block
-        sin_idx = harm_start + unity_side_size + k * harmonic_order
-        sin_coeffs_k = solution_vector[sin_idx : sin_idx + harmonic_order]
+        cos_coeffs_k, sin_coeffs_k = unity_coeffs_k, other_coeffs_k
     else:  # Sine is unity
-        # Sine coeffs: first one is implicit 1.0
-        h_idx = harm_start + k * (harmonic_order - 1)
-        sin_coeffs_k = np.concatenate([[1.0], solution_vector[h_idx : h_idx + harmonic_order - 1]])
-        
-        # Cosine coeffs
-        cos_idx = harm_start + unity_side_size + k * harmonic_order
-        cos_coeffs_k = solution_vector[cos_idx : cos_idx + harmonic_order]
+        sin_coeffs_k, cos_coeffs_k = unity_coeffs_k, other_coeffs_k
 
     # Reference = -(Basis_Cos * Coeffs_Cos + Basis_Sin * Coeffs_Sin) / Norm
     return -(cos_basis_k @ cos_coeffs_k + sin_basis_k @ sin_coeffs_k) / norm_factor
diff --git a/python/src/adctoolbox/calibration/calibrate_weight_sine.py b/python/src/adctoolbox/calibration/calibrate_weight_sine.py
index 0e7387a..754c2a9 100644
--- a/python/src/adctoolbox/calibration/calibrate_weight_sine.py
+++ b/python/src/adctoolbox/calibration/calibrate_weight_sine.py
@@ -148,7 +148,7 @@ def calibrate_weight_sine(
 
     num_datasets = len(bits_segments)
     num_harm_total = num_datasets * harmonic_order
-    idx_quadrature = bit_width_effective + num_harm_total
+    idx_quadrature = bit_width_effective + num_datasets + num_harm_total - 1
     norm_factor = np.sqrt(1.0 + coeffs[idx_quadrature]**2)
 
     w_phys_effective = _recover_columns_for_conditioning(
-- 
2.43.0

