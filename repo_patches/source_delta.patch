From 07732b7c54c54c880a1e328e46d8e4e9d1796259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 01/26] fix: pass rtol on to the eigendecompositions of the DMD
 and TLSqrDMD correlation arrays

---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 577f0f9..699a687 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -783,7 +783,7 @@ class DMDHandles(object):
         # Compute eigendecomposition of correlation array
         self.correlation_array_eigvals, self.correlation_array_eigvecs =\
             parallel.call_and_bcast(
-            util.eigh, self.correlation_array, atol=atol, rtol=None,
+            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
             is_positive_definite=True)
 
         # Truncate if necessary
@@ -1282,7 +1282,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
                 sum_correlation_array_eigvecs.dot(
                     sum_correlation_array_eigvecs.conj().T))))
     proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
-        proj_correlation_array, atol=atol, rtol=None, is_positive_definite=True)
+        proj_correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
 
     # Truncate if necessary
     if max_num_eigvals is not None and (
@@ -1764,7 +1764,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.sum_correlation_array_eigvals,
         self.sum_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.sum_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
@@ -1783,7 +1783,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.proj_correlation_array_eigvals,
         self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.proj_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
-- 
2.43.0


From 71fd08e1b5007555346d0c2a54ffb0c96be0fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 02/26] fix: raise ValueError from compute_exact_modes, not the
 tuple of its arguments

---
 modred/dmd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 699a687..729f664 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -958,13 +958,11 @@ class DMDHandles(object):
                     mode_handles, self.vec_handles[1:], build_coeffs_exact,
                     coeff_array_col_indices=mode_indices)
             else:
-                raise(
-                    ValueError, (
+                raise ValueError(
                     'Number of vec_handles is not correct for a sequential '
-                    'dataset.'))
+                    'dataset.')
         else:
-            raise(
-                ValueError,
+            raise ValueError(
                 'Neither vec_handles nor adv_vec_handles is defined.')
 
 
-- 
2.43.0


From a69a58305e9850d2010951e5df060fb1c8d0aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 03/26] fix: conjugate the eigenvectors in the TLSqrDMD
 snapshot-method spectral coefficients

---
 modred/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 729f664..384e31c 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -1325,7 +1325,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
-- 
2.43.0


From 68b68e2badc3d4b7852086e6325f322e6090f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 04/26] fix: forget advanced vector handles of an earlier
 decomposition when a sequential dataset is decomposed

---
 modred/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 384e31c..985a3d6 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -856,8 +856,8 @@ class DMDHandles(object):
             of correlation array.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
@@ -1870,8 +1870,8 @@ class TLSqrDMDHandles(DMDHandles):
         under-constrined datasets.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
-- 
2.43.0


From a9f6e6003aef8db4e09572877e075496253a9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 05/26] fix: eigh drops negative eigenvalues of positive
 definite arrays when atol is None

---
 modred/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 15fefb1..06ed05f 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -277,7 +277,8 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and abs(eigvals.min()) > atol:
+    if is_positive_definite and eigvals.min() < 0 and (
+        atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
     # Filter out small and negative eigenvalues, if necessary
-- 
2.43.0


From eb77f47fe57a5c7a060bf24219f4bc583b603be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 06/26] fix: save_array_text converts to double precision,
 contiguous data before viewing it as floats

---
 modred/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 06ed05f..7ce5362 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -73,8 +73,10 @@ def save_array_text(array, file_name, delimiter=None):
     Files can be read in Matlab with the provided functions or often
     with Matlab's ``load``.
     """
-    # Force data to be an array
-    array = np.array(array)
+    # Force data to be a C-contiguous array of double precision numbers, so that
+    # a view as floats holds the values (interleaved if complex).
+    array = np.array(
+        array, dtype=complex if np.iscomplexobj(array) else float, order='C')
 
     # If array is 1d, then make it into a 2d column vector
     if array.ndim == 1:
-- 
2.43.0


From a4c7469c3d024701f76603ad0877a55622662a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 07/26] fix: Hankel accepts any sequence as last_row

---
 modred/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 7ce5362..0d48fa5 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -583,7 +583,7 @@ def Hankel(first_col, last_row=None):
     if last_row is None:
         last_row = np.zeros(first_col.shape)
     else:
-        last_row = last_row.flatten()
+        last_row = np.array(last_row).flatten()
 
     unique_vals = np.concatenate((first_col, last_row[1:]))
     a, b = np.ogrid[0:len(first_col), 0:len(last_row)]
-- 
2.43.0


From 42e4db35f7098d7566bc97b3c58ed43e6917f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 08/26] fix: name the inconsistent file in the error of
 load_multiple_signals

---
 modred/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 0d48fa5..54b0872 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -558,7 +558,7 @@ def load_multiple_signals(signal_paths, delimiter=None):
             delimiter=delimiter)
         if not np.allclose(time_values_read, time_values):
             raise ValueError('Time values in %s are inconsistent with '
-                'other files')
+                'other files' % signal_path)
         all_signals[path_num] = signals
 
     return time_values, all_signals
-- 
2.43.0


From a46562e930ce1ebb799b9d31125a134cd8afac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 09/26] fix: find_assignments assigns trailing tasks of zero or
 negligible weight

---
 modred/parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/parallel.py b/modred/parallel.py
index ac26e9e..0728d76 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -224,6 +224,10 @@ def find_assignments(tasks, task_weights=None):
             new_max_task_index = np.abs(np.cumsum(
                 task_weights[first_unassigned_index:]) -\
                 work_per_worker).argmin() + first_unassigned_index
+            # The last worker takes everything that is left, also tasks whose
+            # weights are too small to change the sum
+            if num_remaining_workers == 1:
+                new_max_task_index = len(task_weights) - 1
             # Append all tasks up to and including new_max_task_index
             task_assignments.append(tasks[first_unassigned_index:\
                 new_max_task_index+1])
-- 
2.43.0


From 8a829a8fdfbc3db5598c5957f5646d816c7ef974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 10/26] fix: loaded spectra stay one-dimensional when they hold
 a single value

---
 modred/bpod.py |  4 ++--
 modred/dmd.py  | 20 ++++++++++----------
 modred/pod.py  |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/modred/bpod.py b/modred/bpod.py
index 3c14782..d9736fe 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -210,8 +210,8 @@ class BPODHandles(object):
             ``R_sing_vecs_src``: Source from which to retrieve right singular
             vectors of Hankel array.
         """
-        self.sing_vals = np.squeeze(parallel.call_and_bcast(
-            self.get_array, sing_vals_src))
+        self.sing_vals = np.atleast_1d(np.squeeze(parallel.call_and_bcast(
+            self.get_array, sing_vals_src)))
         self.L_sing_vecs = parallel.call_and_bcast(
             self.get_array, L_sing_vecs_src)
         self.R_sing_vecs = parallel.call_and_bcast(
diff --git a/modred/dmd.py b/modred/dmd.py
index 985a3d6..e2b80be 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -557,15 +557,15 @@ class DMDHandles(object):
             ``correlation_array_eigvecs_src``: Source from which to retrieve
             eigenvectors of correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.correlation_array_eigvals = np.squeeze(np.array(
+        self.correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, correlation_array_eigvals_src)))
+            self.get_array, correlation_array_eigvals_src))))
         self.correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, correlation_array_eigvecs_src)
 
@@ -1977,20 +1977,20 @@ class TLSqrDMDHandles(DMDHandles):
             ``proj_correlation_array_eigvecs_src``: Source from which to
             retrieve eigenvectors of projected correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.sum_correlation_array_eigvals = np.squeeze(np.array(
+        self.sum_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, sum_correlation_array_eigvals_src)))
+            self.get_array, sum_correlation_array_eigvals_src))))
         self.sum_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvecs_src)
-        self.proj_correlation_array_eigvals = np.squeeze(np.array(
+        self.proj_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, proj_correlation_array_eigvals_src)))
+            self.get_array, proj_correlation_array_eigvals_src))))
         self.proj_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, proj_correlation_array_eigvecs_src)
 
diff --git a/modred/pod.py b/modred/pod.py
index 8ebf430..1ad5a09 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -264,8 +264,8 @@ class PODHandles(object):
             ``eigvecs_src``: Source from which to retrieve eigenvectors of
             correlation array.
         """
-        self.eigvals = np.squeeze(np.array(parallel.call_and_bcast(
-            self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(parallel.call_and_bcast(
+            self.get_array, eigvals_src))))
         self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
 
 
-- 
2.43.0


From 1a4023416b3bb5b69ffaff131cfff41631413463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 11/26] fix: spectral coefficients are one-dimensional, also
 for one mode and when loaded

---
 modred/dmd.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index e2b80be..86c4753 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -174,7 +174,7 @@ def compute_DMD_arrays_snaps_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T)).squeeze())
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -427,7 +427,7 @@ def compute_DMD_arrays_direct_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T))).squeeze()
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -595,7 +595,8 @@ class DMDHandles(object):
         Args:
             ``src``: Source from which to retrieve spectral coefficients.
         """
-        self.spectral_coeffs = parallel.call_and_bcast(self.get_array, src)
+        self.spectral_coeffs = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, src))))
 
 
     def get_proj_coeffs(self, src, adv_src):
@@ -1074,7 +1075,7 @@ class DMDHandles(object):
         self.spectral_coeffs = np.abs(
             self.L_low_order_eigvecs.conj().T.dot(
                 np.diag(self.correlation_array_eigvals ** 0.5).dot(
-                    self.correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                    self.correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
@@ -1325,7 +1326,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -2146,7 +2147,7 @@ class TLSqrDMDHandles(DMDHandles):
         # ie first, last, or mean?
         self.spectral_coeffs = np.abs(self.L_low_order_eigvecs.conj().T.dot(
             np.diag(self.proj_correlation_array_eigvals ** 0.5).dot(
-                self.proj_correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                self.proj_correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
-- 
2.43.0


From a5d016e38289d3faa35944fdf02741cd25fa5137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 12/26] fix: make_sampled_format keeps complex Markov
 parameters

---
 modred/era.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modred/era.py b/modred/era.py
index f22a091..e4460a0 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -43,7 +43,9 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
 
     time_steps = np.round((times-times[0])/dt)
     num_time_steps_corr = (num_time_steps - 1)*2
-    Markovs_corr = np.zeros((num_time_steps_corr, num_Markovs, num_inputs))
+    Markovs_corr = np.zeros(
+        (num_time_steps_corr, num_Markovs, num_inputs),
+        dtype=np.result_type(Markovs, float))
     time_steps_corr = np.zeros(num_time_steps_corr, dtype=int)
     Markovs_corr[::2] = Markovs[:-1]
     Markovs_corr[1::2] = Markovs[1:]
-- 
2.43.0


From 7809126f121b8cc9bba42db6fb79492184769540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 13/26] fix: ERA keeps complex Markov parameters in its Hankel
 arrays

---
 modred/era.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index e4460a0..8072aa8 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -332,9 +332,11 @@ class ERA(object):
                 'mo + mc + 2= %d and must be <= than the number of samples %d'
                 % (self.mo + self.mc + 2, self.num_time_steps))
 
+        dtype = np.result_type(self.Markovs, float)
         self.Hankel_array = np.zeros(
-            (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-        self.Hankel_array2 = np.zeros(self.Hankel_array.shape)
+            (self.num_Markovs * self.mo, self.num_inputs * self.mc),
+            dtype=dtype)
+        self.Hankel_array2 = np.zeros(self.Hankel_array.shape, dtype=dtype)
         #Markovs_flattened = \
         #    self.Markovs.swapaxes(0,1).reshape((num_Markovs, -1))
         for row in range(self.mo):
-- 
2.43.0


From 1dbef25a64a451923ee327ae4a0269a5d0ec43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 14/26] fix: OKID handles complex input and output data

---
 modred/okid.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modred/okid.py b/modred/okid.py
index 25334af..6330008 100644
--- a/modred/okid.py
+++ b/modred/okid.py
@@ -49,7 +49,9 @@ def OKID(inputs, outputs, num_Markovs):
     # Convenience variable
     num_inouts = num_inputs + num_outputs
 
-    V = np.zeros((num_inputs + num_inouts * num_Markovs, num_samples))
+    dtype = np.result_type(inputs, outputs, float)
+    V = np.zeros(
+        (num_inputs + num_inouts * num_Markovs, num_samples), dtype=dtype)
     V[:num_inputs] = inputs
 
     inputs_outputs = np.concatenate((inputs, outputs), axis=0)
@@ -60,8 +62,8 @@ def OKID(inputs, outputs, num_Markovs):
     # Ybar in book
     #Markov_aug = np.dot(outputs, np.array(np.linalg.pinv(V, cutoff)))
     # Using least squares for better numerical conditioning? outputs = M V, so
-    # outputs.T = V.T M.T, solve for M = Markovs_aug.
-    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.T)[0].conj().T
+    # outputs^H = V^H M^H, solve for M = Markovs_aug.
+    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.conj().T)[0].conj().T
 
     D = Markov_aug[:, :num_inputs]
 
@@ -85,11 +87,12 @@ def OKID(inputs, outputs, num_Markovs):
                 Markov_num * num_inouts + num_inouts])
 
     # Estimate the Markov parameters of the system
-    Markov_est = np.empty((num_Markovs, num_outputs, num_inputs))
+    Markov_est = np.empty(
+        (num_Markovs, num_outputs, num_inputs), dtype=dtype)
     Markov_est[0] = D
 
     for Markov_num in range(1, num_Markovs):
-        summation_term = np.zeros((num_outputs, num_inputs))
+        summation_term = np.zeros((num_outputs, num_inputs), dtype=dtype)
         for i in range(1, Markov_num + 1):
             summation_term += Markov_aug_output[i].dot(
                 Markov_est[Markov_num- i , :, :])
-- 
2.43.0


From ca4f7397474146cea4e4d784df52a120b293f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 15/26] fix: balanced_truncation balances the discrete-time
 system it is documented for

---
 modred/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 54b0872..c52925b 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -366,20 +366,20 @@ def balanced_truncation(
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
-    gram_cont = scipy.linalg.solve_lyapunov(A, B.dot(B.transpose().conj()))
-    gram_obsv = scipy.linalg.solve_lyapunov(A.transpose().conj(),
+    gram_cont = scipy.linalg.solve_discrete_lyapunov(A, B.dot(B.transpose().conj()))
+    gram_obsv = scipy.linalg.solve_discrete_lyapunov(A.transpose().conj(),
         C.transpose().conj().dot(C))
     Uc, Ec, Vc = svd(gram_cont)
     Uo, Eo, Vo = svd(gram_obsv)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().dot(Lc))
+    U, E, V = svd(Lo.transpose().conj().dot(Lc))
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
     SR = Lc.dot(V[:, :order]).dot(np.diag(E[:order]**-0.5))
-    A_bal_trunc = SL.transpose().dot(A).dot(SR)
-    B_bal_trunc = SL.transpose().dot(B)
+    A_bal_trunc = SL.transpose().conj().dot(A).dot(SR)
+    B_bal_trunc = SL.transpose().conj().dot(B)
     C_bal_trunc = C.dot(SR)
     if return_sing_vals:
         return A_bal_trunc, B_bal_trunc, C_bal_trunc, E
-- 
2.43.0


From fe5fd47efe9889b16f8a04ea0ec3f53548c116c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 16/26] fix: ERA saves arrays once, from rank zero, before any
 process returns

---
 modred/era.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index 8072aa8..a4c7d6e 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -1,6 +1,7 @@
 """Functions and classes fo rERA models. See paper by Ma et al. 2011, TCFD."""
 import numpy as np
 
+from . import parallel
 from . import util
 from .py2to3 import range
 
@@ -236,9 +237,10 @@ class ERA(object):
             ``C_dest``: Destination in which to put C array of reduced-order
             model.
         """
-        self.put_array(self.A, A_dest)
-        self.put_array(self.B, B_dest)
-        self.put_array(self.C, C_dest)
+        parallel.call_from_rank_zero(self.put_array, self.A, A_dest)
+        parallel.call_from_rank_zero(self.put_array, self.B, B_dest)
+        parallel.call_from_rank_zero(self.put_array, self.C, C_dest)
+        parallel.barrier()
         if self.verbosity:
             print('Put ROM arrays to:')
             print(A_dest)
@@ -267,16 +269,24 @@ class ERA(object):
             ``Hankel_array2_dest``: Destination in which to put second Hankel
             array.
         """
-        self.put_array(self.Hankel_array, Hankel_array_dest)
-        self.put_array(self.Hankel_array2, Hankel_array2_dest)
-        self.put_array(self.L_sing_vecs, L_sing_vecs_dest)
-        self.put_array(self.sing_vals, sing_vals_dest)
-        self.put_array(self.R_sing_vecs, R_sing_vecs_dest)
+        parallel.call_from_rank_zero(
+            self.put_array, self.Hankel_array, Hankel_array_dest)
+        parallel.call_from_rank_zero(
+            self.put_array, self.Hankel_array2, Hankel_array2_dest)
+        parallel.call_from_rank_zero(
+            self.put_array, self.L_sing_vecs, L_sing_vecs_dest)
+        parallel.call_from_rank_zero(
+            self.put_array, self.sing_vals, sing_vals_dest)
+        parallel.call_from_rank_zero(
+            self.put_array, self.R_sing_vecs, R_sing_vecs_dest)
+        parallel.barrier()
 
 
     def put_sing_vals(self, sing_vals_dest):
         """Puts the singular values to ``sing_vals_dest``."""
-        self.put_array(self.sing_vals, sing_vals_dest)
+        parallel.call_from_rank_zero(
+            self.put_array, self.sing_vals, sing_vals_dest)
+        parallel.barrier()
 
 
     def _set_Markovs(self, Markovs):
-- 
2.43.0


From 4020b7ea724ea7b3f856bddd9ac29b61ba7e0604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 17/26] fix: print_from_rank_zero writes to the requested
 output channel

---
 modred/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/parallel.py b/modred/parallel.py
index 0728d76..53de4f8 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -4,7 +4,7 @@ import codecs
 
 import numpy as np
 
-from .py2to3 import range
+from .py2to3 import print_msg, range
 
 
 # Check to see if MPI is available by importing MPI-related modules
@@ -106,7 +106,7 @@ def barrier():
 def print_from_rank_zero(msg, output_channel='stdout'):
     """Prints ``msg`` from rank zero processor/MPI worker only."""
     if is_rank_zero():
-        print(msg)
+        print_msg(str(msg), output_channel=output_channel)
 
 
 def call_from_rank_zero(func, *args, **kwargs):
-- 
2.43.0


From 4906addbf616074d23ed1d1311ab592cf736ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 18/26] fix: vector handles with another base vector, scale or
 number type are not equal

The cached base vector is used for all base handles equal to the one it was
read from, so that h2.get() subtracted the unscaled vector here:

h1 = VecHandleInMemory(v, base_vec_handle=VecHandleInMemory(b))
h2 = VecHandleInMemory(v, base_vec_handle=VecHandleInMemory(b, scale=2.))
h1.get(); h2.get()
---
 modred/vectors.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index 7a45c5e..fbc1b93 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -63,6 +63,13 @@ class VecHandle(object):
         return vec
 
 
+    def _same_settings(self, other):
+        """Checks if the base vector and the scale factor are the same."""
+        return (
+            self.scale == other.scale and
+            self.__base_vec_handle == other.__base_vec_handle)
+
+
 class VecHandleInMemory(VecHandle):
     """Gets and puts vectors from/in memory."""
     def __init__(self, vec=None, base_vec_handle=None, scale=None):
@@ -83,7 +90,8 @@ class VecHandleInMemory(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return util.smart_eq(self.vec, other.vec)
+        return (
+            util.smart_eq(self.vec, other.vec) and self._same_settings(other))
 
 
 class VecHandleArrayText(VecHandle):
@@ -108,7 +116,10 @@ class VecHandleArrayText(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return self.vec_path == other.vec_path
+        return (
+            self.vec_path == other.vec_path and
+            self.is_complex == other.is_complex and
+            self._same_settings(other))
 
 
 class VecHandlePickle(VecHandle):
@@ -131,7 +142,8 @@ class VecHandlePickle(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return self.vec_path == other.vec_path
+        return (
+            self.vec_path == other.vec_path and self._same_settings(other))
 
 
 def inner_product_array_uniform(vec1, vec2):
-- 
2.43.0


From b1157d02590371c0e8ced6cf679bfe64ed4fd33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 19/26] fix: forget the cached base vector when a vector is put

After base.put(vec), handles with this base subtracted the vector that was
behind the base handle before.
---
 modred/vectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modred/vectors.py b/modred/vectors.py
index fbc1b93..124ef67 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -43,6 +43,9 @@ class VecHandle(object):
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
+        # The vector that is replaced may be the cached base vector
+        VecHandle.cached_base_vec_handle = None
+        VecHandle.cached_base_vec = None
         return self._put(vec)
 
 
-- 
2.43.0


From 1ea61736e0988d1b6c65a2d370f8eb1803c4ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 20/26] fix: the sanity check compares relative to the size of
 the test vector

---
 modred/vectorspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e4e172f..364a91d 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -152,9 +152,6 @@ class VectorSpaceHandles(object):
         # TODO: Other things which could be tested:
         # ``get``/``put`` doesn't affect other vecs (memory problems)
 
-        # Set tolerance
-        tol = 1e-12
-
         # Check inner product properties
         self._check_inner_product()
 
@@ -166,6 +163,9 @@ class VectorSpaceHandles(object):
         vec_copy = copy.deepcopy(test_vec)
         vec_copy_mag_sq = self.inner_product(vec_copy, vec_copy)
 
+        # Set tolerance, relative to the size of the test vector
+        tol = 1e-12 * abs(vec_copy_mag_sq)
+
         # Check that inner product of scaled vector is correct
         scale_factor = 2.
         vec_mult = test_vec * scale_factor
-- 
2.43.0


From 5fd589b0d6e439a7ce041775a88e2de049c4d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 21/26] fix: docstrings name the arguments that the functions
 accept

---
 modred/dmd.py             | 4 ++--
 modred/ltigalerkinproj.py | 2 +-
 modred/pod.py             | 2 --
 modred/util.py            | 2 +-
 modred/vectorspace.py     | 2 +-
 5 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 86c4753..2c598c1 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -935,8 +935,8 @@ class DMDHandles(object):
             ``mode_handles``: List of handles for exact modes to compute.
 
         Kwargs:
-            ``vec_handles``: List of handles for vector objects. Optional if
-            when calling :py:meth:`compute_decomp`.
+            ``adv_vec_handles``: List of handles for vector objects advanced in
+            time. Optional if given when calling :py:meth:`compute_decomp`.
         """
         # If advanced vec handles are passed in, set the internal attribute,
         if adv_vec_handles is not None:
diff --git a/modred/ltigalerkinproj.py b/modred/ltigalerkinproj.py
index 89a7170..bfea37c 100644
--- a/modred/ltigalerkinproj.py
+++ b/modred/ltigalerkinproj.py
@@ -128,7 +128,7 @@ class LTIGalerkinProjectionArrays(LTIGalerkinProjectionBase):
         ``basis_vecs``: Array whose columns are basis vectors.
 
     Kwargs:
-        ``adjoint_basis_vec_handles``: Array whose columns are adjoint basis
+        ``adjoint_basis_vecs``: Array whose columns are adjoint basis
         vectors.  If not given, then assumed to be the same as ``basis_vecs``.
 
         ``is_basis_orthonormal``: Boolean for biorthonormality of the basis
diff --git a/modred/pod.py b/modred/pod.py
index 1ad5a09..34e0e6f 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -120,8 +120,6 @@ def compute_POD_arrays_direct_method(
         ``rtol``: Maximum relative difference between largest and smallest
         eigenvalues of correlation array.  Smaller ones are truncated.
 
-        ``return_all``: Return more objects; see below. Default is false.
-
     Returns:
         ``res``: Results of POD computation, stored in a namedtuple with the
         following attributes:
diff --git a/modred/util.py b/modred/util.py
index c52925b..86f41fe 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -498,7 +498,7 @@ def load_signals(signal_path, delimiter=None):
     """Loads signals from text files with columns [t signal1 signal2 ...].
 
     Args:
-        ``signal_paths``: List of filepaths to files containing signals.
+        ``signal_path``: Filepath to file containing signals.
 
     Returns:
         ``time_values``: 1D array of time values.
diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 364a91d..5d4263b 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -13,7 +13,7 @@ class VectorSpaceArrays(object):
     arrays.
 
     Kwargs:
-        ``inner_product_weights``: 1D array of inner product weights.
+        ``weights``: 1D array of inner product weights.
         Corresponds to :math:`W` in inner product :math:`v_1^* W v_2`.
     """
     def __init__(self, weights=None):
-- 
2.43.0


From 924fba274bc166b0bdff96c354c1559752a1b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 22/26] fix: load_multiple_signals rejects files with another
 number of signals

---
 modred/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index 86f41fe..360f968 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -556,6 +556,10 @@ def load_multiple_signals(signal_paths, delimiter=None):
     for path_num, signal_path in enumerate(signal_paths):
         time_values_read, signals = load_signals(signal_path,
             delimiter=delimiter)
+        if signals.shape != all_signals[0].shape:
+            raise ValueError(
+                'Number of times or signals in %s is inconsistent with '
+                'other files' % signal_path)
         if not np.allclose(time_values_read, time_values):
             raise ValueError('Time values in %s are inconsistent with '
                 'other files' % signal_path)
-- 
2.43.0


From b4b09e0e93afa38d2d570e4261d3052e5fc48fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 23/26] fix: compute_derivs_handles uses only the operations
 required of vectors

---
 modred/ltigalerkinproj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/ltigalerkinproj.py b/modred/ltigalerkinproj.py
index bfea37c..f3ba7c2 100644
--- a/modred/ltigalerkinproj.py
+++ b/modred/ltigalerkinproj.py
@@ -48,7 +48,8 @@ def compute_derivs_handles(vec_handles, adv_vec_handles, deriv_vec_handles, dt):
     for i in vec_index_tasks:
         vec = vec_handles[i].get()
         vec_dt = adv_vec_handles[i].get()
-        deriv_vec_handles[i].put((1. / dt) * (vec_dt - vec))
+        # Vector objects need not define subtraction
+        deriv_vec_handles[i].put((1. / dt) * (vec_dt + (-1.) * vec))
     parallel.barrier()
 
 
-- 
2.43.0


From 0ff4fdb676f395b0d5490a4b9235c100aced7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 24/26] fix: ERA respects the sizes mc and mo given to its
 constructor, and a single one of them

---
 modred/era.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index a4c7d6e..0bbf73d 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -147,6 +147,8 @@ class ERA(object):
         self.put_array = put_array
         self.mc = mc
         self.mo = mo
+        self._init_mc = mc
+        self._init_mo = mo
         self.outputs = None
         self.verbosity = verbosity
         self.A = None
@@ -193,8 +195,9 @@ class ERA(object):
         :math:`dt`.  You can account for this by multiplying B by :math:`dt`.
         """
         self._set_Markovs(np.array(Markovs))
-        self.mc = mc
-        self.mo = mo
+        # Sizes given here take precedence over those given to the constructor
+        self.mc = self._init_mc if mc is None else mc
+        self.mo = self._init_mo if mo is None else mo
 
         self._assemble_Hankel()
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
@@ -332,10 +335,11 @@ class ERA(object):
         # For additional output times, (nt-2)/4 rounds down, so
         # we use this formula.
 
-        if self.mo is None or self.mc is None:
-            # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
+        # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
+        if self.mo is None:
             self.mo = (self.num_time_steps-2)//4
-            self.mc = self.mo
+        if self.mc is None:
+            self.mc = (self.num_time_steps-2)//4
 
         if (self.mo + self.mc) + 2 > self.num_time_steps:
             raise ValueError(
-- 
2.43.0


From b5dd076ca29b0ef72d40afa923728a90119bc5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 25/26] fix: ERA rejects sizes mc and mo that need more samples
 than there are

---
 modred/era.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index 0bbf73d..1aab658 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -341,10 +341,10 @@ class ERA(object):
         if self.mc is None:
             self.mc = (self.num_time_steps-2)//4
 
-        if (self.mo + self.mc) + 2 > self.num_time_steps:
+        if 2 * (self.mo + self.mc - 1) > self.num_time_steps:
             raise ValueError(
-                'mo + mc + 2= %d and must be <= than the number of samples %d'
-                % (self.mo + self.mc + 2, self.num_time_steps))
+                '2 * (mo + mc - 1) = %d and must be <= the number of samples %d'
+                % (2 * (self.mo + self.mc - 1), self.num_time_steps))
 
         dtype = np.result_type(self.Markovs, float)
         self.Hankel_array = np.zeros(
-- 
2.43.0


From 6b142938a394077e5077455eb787f458afcea9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 26/26] fix: computing POD and DMD modes before any vectors are
 given raises an error that says so

---
 modred/dmd.py | 4 ++++
 modred/pod.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/modred/dmd.py b/modred/dmd.py
index 2c598c1..5d5e0d8 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -983,6 +983,8 @@ class DMDHandles(object):
         """
         if vec_handles is not None:
             self.vec_handles = vec_handles
+        if self.vec_handles is None:
+            raise ValueError('vec_handles is not defined.')
 
         # Compute build coefficient array
         build_coeffs_proj = self._compute_build_coeffs_proj()
@@ -1028,6 +1030,8 @@ class DMDHandles(object):
         """
         if vec_handles is not None:
             self.vec_handles = vec_handles
+        if self.vec_handles is None:
+            raise ValueError('vec_handles is not defined.')
 
         # Compute build coefficient array
         build_coeffs_adjoint = self._compute_build_coeffs_adjoint()
diff --git a/modred/pod.py b/modred/pod.py
index 34e0e6f..d09effb 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -406,6 +406,8 @@ class PODHandles(object):
         """
         if vec_handles is not None:
             self.vec_handles = util.make_iterable(vec_handles)
+        if self.vec_handles is None:
+            raise util.UndefinedError('vec_handles undefined')
         build_coeffs = np.dot(self.eigvecs, np.diag(self.eigvals**-0.5))
         self.vec_space.lin_combine(
             mode_handles, self.vec_handles, build_coeffs,
-- 
2.43.0

