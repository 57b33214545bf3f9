From 4822209815115f6ee8fc4e1004e8bd9c7058742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:26 +0000
Subject: [PATCH 01/38] fix: diagonal lookup of the sparse gain kernels for
 empty rows

---
 src/flowstab/_cython_sparse_stoch.pyx | 20 ++++++++------------
 src/flowstab/_cython_subst.py         | 16 ++++++----------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 91b32d2..f3877cf 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -753,7 +753,7 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -771,12 +771,10 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    # check if PT[k,k] is nonzero (row k can be empty)
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
@@ -843,7 +841,7 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -861,12 +859,10 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    # check if PT[k,k] is nonzero (row k can be empty)
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 12da289..636907b 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -419,12 +419,10 @@ def compute_delta_PT_moveto(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    # check if PT[k,k] is nonzero (row k can be empty)
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
@@ -500,12 +498,10 @@ def compute_delta_PT_moveout(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    # check if PT[k,k] is nonzero (row k can be empty)
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
-- 
2.43.0


From 2459c75532b928ba830cfe620b2ffb18f51830af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:22 +0000
Subject: [PATCH 02/38] fix: Louvain search started from a partition that is
 not one node per cluster

---
 src/flowstab/network_clustering.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e450807..e05fb8c 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -951,6 +951,10 @@ class BaseClustering:
                       f" finished meta loop: {n_meta_loop}, number of total sub loops: {n_sub_loops}")
 
             #update original node partition
+            if n_meta_loop == 1:
+                # the first meta clustering works on the nodes themselves,
+                # not on the clusters of the starting partition
+                self._update_to_singletons()
             self._update_original_partition(meta_clustering)
 
 
@@ -1043,6 +1047,11 @@ class BaseClustering:
         self.source_part = Partition(num_nodes=self.num_nodes,
                                      cluster_list=[set(range(self.num_nodes))])
 
+    def _update_to_singletons(self):
+
+        self.target_part = Partition(num_nodes=self.num_nodes)
+        self.source_part = Partition(num_nodes=self.num_nodes)
+
     def _check_if_S_is_zero(self, thresh=1e-6):
 
         return np.abs(self._S).max()< thresh/(self.num_nodes**2)
@@ -1446,6 +1455,9 @@ class Clustering(BaseClustering):
         self.source_part = Partition(num_nodes=self.num_nodes,
                                      cluster_list=[set(range(self.num_nodes))])
 
+    def _update_to_singletons(self):
+
+        self.source_part = Partition(num_nodes=self.num_nodes)
 
     def find_louvain_clustering(self, delta_r_threshold=np.finfo(float).eps,
                                 n_meta_iter_max=1000,
-- 
2.43.0


From 4c88f70259d8b5a33e6ef05ee08f4db72269ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:24 +0000
Subject: [PATCH 03/38] fix: index of a time that is not first in the grid
 (numpy >= 2.4 rejects int() of 1-element arrays)

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fb660fc..f09e869 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1134,7 +1134,7 @@ class ContTempNetwork:
             else:
                 t = self.times[self.times <= t].max()
 
-        k = int(np.where(self.times == t)[0])
+        k = int(np.where(self.times == t)[0][0])
 
         return t, k
 
-- 
2.43.0


From 426d52c2a7378a64972063251f71987ea2eb17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:24 +0000
Subject: [PATCH 04/38] fix: flow clustering of a time window uses the times of
 the window

---
 src/flowstab/flow_stability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index bdf02ed..7b31875 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -648,7 +648,9 @@ class FlowStability(metaclass=StateMeta, states=States):
             kwargs.update(dict(
                 T_inter_list=[T.toarray()
                               for T in self.temporal_network.inter_T[_lambda]],
-                time_list=self.temporal_network.times,
+                time_list=self.temporal_network.times[
+                    self.temporal_network._k_start_laplacians:
+                    self.temporal_network._k_stop_laplacians + 1],
             ))
             if self.time_direction <= 0:
                 logger.info(
-- 
2.43.0


From 8c275db88f32aa2d6fdd057f689b56ebb2e782f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:24 +0000
Subject: [PATCH 05/38] fix: time_scale and lamda arguments of
 FlowStability.compute_inter_transition_matrices

---
 src/flowstab/flow_stability.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 7b31875..cb4434f 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -519,11 +519,9 @@ class FlowStability(metaclass=StateMeta, states=States):
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
 
-        _time_scale = None
-        if 'time_scale' in kwargs:
-            _time_scale = kwargs['time_scale']
-        elif 'lamda' in kwargs and kwargs['lamda'] is not None:
-            _time_scale = 1 / kwargs['lamba']
+        _time_scale = kwargs.pop('time_scale', None)
+        if _time_scale is None and kwargs.get('lamda') is not None:
+            _time_scale = 1 / kwargs['lamda']
         if _time_scale is not None:
             self.time_scale = _time_scale
         for _ts in self.time_scale:
-- 
2.43.0


From edd4780e274abe97221d0578648dd2c82b339b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:33 +0000
Subject: [PATCH 06/38] fix: an analysis in a single time direction can be
 completed

---
 src/flowstab/flow_stability.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index cb4434f..eea13e6 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -664,6 +664,9 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+            else:
+                # not part of the analysis
+                self.flow_clustering_backward = (_ts, None)
             if self.time_direction >= 0:
                 logger.info(
                     f"\t- Creating the time forward clustering."
@@ -678,6 +681,9 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+            else:
+                # not part of the analysis
+                self.flow_clustering_forward = (_ts, None)
             logger.info("-> done.")
         return self
 
-- 
2.43.0


From 53299ccdb76c71674086902698c536ddb9e009d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:33 +0000
Subject: [PATCH 07/38] fix: integral time grids (numpy >= 2.4 rejects int() of
 1-element arrays)

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e05fb8c..1cfa55d 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1915,7 +1915,7 @@ class FlowIntegralClustering:
                         t = self.time_list[self.time_list >= t].min()
 
 
-                k = int(np.where(self.time_list == t)[0])
+                k = int(np.where(self.time_list == t)[0][0])
                 self._k_integral_grid.append(k)
                 self._t_integral_grid.append(t)
 
-- 
2.43.0


From 7bcd693140b2364c4796419d0f7c14c32ef926c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:21 +0000
Subject: [PATCH 08/38] fix: print_num_loops was taken as verbose by the
 node-moving phase of Clustering

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 1cfa55d..8f2e6b1 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -944,7 +944,7 @@ class BaseClustering:
             # sub loop
             delta_r_meta_loop, n_sub_loops = meta_clustering._louvain_move_nodes(delta_r_threshold,
                                                 n_sub_iter_max,
-                                                print_num_loops)
+                                                print_num_loops=print_num_loops)
 
             if print_num_loops:
                 print("       PID ", os.getpid(),
-- 
2.43.0


From 130d34e1483acd6323c9e2e7344220e208ec2888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:15 +0000
Subject: [PATCH 09/38] fix: parallel clustering of a sparse clustering uses
 the symmetry and null model of its covariance

---
 src/flowstab/parallel_clustering.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/parallel_clustering.py b/src/flowstab/parallel_clustering.py
index 8947f76..ac581bf 100644
--- a/src/flowstab/parallel_clustering.py
+++ b/src/flowstab/parallel_clustering.py
@@ -90,7 +90,9 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
                   initializer=_init_sub_worker_sparse,
                   initargs=(PTdata, PTindices,
                             PTindptr, N,
-                            p1raw, p2raw),
+                            p1raw, p2raw,
+                            clustering._S.p1, clustering._S.p2,
+                            clustering._S.PT_symmetric),
                     ) as pool:
             clusters, stabilites, seeds = \
                 zip(*pool.map(_compute_sym_sparse_clustering_fct, params_list,
@@ -118,7 +120,8 @@ def _init_sub_worker(Sraw, Traw, N, p1raw, p2raw):
     var_dict["T"] = np.frombuffer(Traw, dtype=np.float64).reshape((N,N))
 
 
-def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw, PT_symmetric=True):
+def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw,
+                            S_p1, S_p2, PT_symmetric):
     # reconstruct A from shared arrays
 
     PT = csr_matrix((np.frombuffer(PTdata, dtype=np.float64),
@@ -126,17 +129,15 @@ def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw, PT_sym
                                   np.frombuffer(PTindptr, dtype=np.int64)),
                                  shape=(N,N))
 
-    S = SparseAutocovMat(PT,
-                           np.frombuffer(p1raw, dtype=np.float64),
-                           np.frombuffer(p2raw, dtype=np.float64),
-                           PT_symmetric=PT_symmetric)
+    # the null model of S can differ from the densities of the clustering
+    S = SparseAutocovMat(PT, S_p1, S_p2, PT_symmetric=PT_symmetric)
 
     global var_dict
 
     var_dict["N"] = N
     var_dict["S"] = S
-    var_dict["p1"] = S.p1
-    var_dict["p2"] = S.p2
+    var_dict["p1"] = np.frombuffer(p1raw, dtype=np.float64)
+    var_dict["p2"] = np.frombuffer(p2raw, dtype=np.float64)
     var_dict["T"] = S.PT
 
 
-- 
2.43.0


From 571a79a4b14883c62f7a567a0f7875d56c81a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 10/38] fix: negative differences were dropped from saved delta
 transition matrices

---
 src/flowstab/temporal_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f09e869..ca3db52 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1864,7 +1864,8 @@ class ContTempNetwork:
 
                 if round_zeros:
                     for M in self.delta_inter_T[lamda]:
-                        set_to_zeroes(M, tol=tol)
+                        # differences can be negative
+                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -1892,7 +1893,7 @@ class ContTempNetwork:
 
                     if round_zeros:
                         for M in self.delta_inter_T_lin[lamda][t_s]:
-                            set_to_zeroes(M, tol=tol)
+                            set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -2650,7 +2651,8 @@ def set_to_zeroes(Tcsr, tol=1e-8, relative=True, use_absolute_value=False):
     """
     if tol is not None:
         if isinstance(Tcsr, SparseStochMat):
-            Tcsr.set_to_zeroes(tol, relative=relative)
+            Tcsr.set_to_zeroes(tol, relative=relative,
+                               use_absolute_value=use_absolute_value)
         elif isinstance(Tcsr, (csr_matrix,csc_matrix)):
             if Tcsr.data.size > 0:
                 if relative:
-- 
2.43.0


From 6254ed7ef2fc0700fa191be1a2ee0916d0dc6a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 11/38] fix: saving transition matrices rounded the matrices in
 memory

---
 src/flowstab/temporal_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ca3db52..897034c 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -545,6 +545,8 @@ class ContTempNetwork:
                     save_dict["inter_T"][lamda] = []
                     for interT in self.inter_T[lamda]:
                         if round_zeros:
+                            # rounding is for the file only
+                            interT = interT.copy()
                             interT.set_to_zeroes(tol)
                         save_dict["inter_T"][lamda].append(interT.to_dict())
 
@@ -670,6 +672,7 @@ class ContTempNetwork:
                         save_dict["inter_T_lin"][lamda][t_s] = []
                         for interT in self.inter_T_lin[lamda][t_s]:
                             if round_zeros:
+                                interT = interT.copy()
                                 interT.set_to_zeroes(tol=tol)
                             save_dict["inter_T_lin"][lamda][t_s].append(interT.to_dict())
 
-- 
2.43.0


From 235cd2f84fdbe4baa180442fef030135e8d52bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:01 +0000
Subject: [PATCH 12/38] fix: saving the transition matrices of all rates
 (lamda=None)

---
 src/flowstab/temporal_network.py | 55 +++++++++++---------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 897034c..1ec2570 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -489,34 +489,25 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                assert not isinstance(self.inter_T[lamda][0],
+                if lamda is None:
+                    lamdas = list(self.inter_T.keys())
+                else:
+                    lamdas = [lamda]
+
+                for lamda in lamdas:
+                    assert not isinstance(self.inter_T[lamda][0],
                                   SparseStochMat),\
                                 "inter_T must not be SparseStochMat"
 
-                if not hasattr(self, "delta_inter_T") and \
-                                    hasattr(self, "inter_T"):
-                    if lamda is not None:
+                    if not hasattr(self, "delta_inter_T") or \
+                                    lamda not in self.delta_inter_T.keys():
                         self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
                                                       tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-
-                if (lamda is not None) and (lamda not in self.delta_inter_T.keys()):
-                    self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
 
                 if hasattr(self, "delta_inter_T"):
                     save_dict["inter_T"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T"][lamda] = dict()
                         save_dict["inter_T"][lamda]["delta_inter_T"] = self.delta_inter_T[lamda]
@@ -613,33 +604,23 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                if not hasattr(self, "delta_inter_T_lin") and \
-                                    hasattr(self, "inter_T_lin"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T_lin.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                if lamda is None:
+                    lamdas = list(self.inter_T_lin.keys())
+                else:
+                    lamdas = [lamda]
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T_lin.keys()):
-                    self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
+                for lamda in lamdas:
+                    if not hasattr(self, "delta_inter_T_lin") or \
+                                    lamda not in self.delta_inter_T_lin.keys():
+                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
                                                       tol=tol)
 
-
                 if hasattr(self, "delta_inter_T_lin"):
 
 
                     save_dict["inter_T_lin"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T_lin.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T_lin"][lamda] = dict()
                         for t_s in self.inter_T_lin[lamda].keys():
@@ -658,7 +639,7 @@ class ContTempNetwork:
                 save_dict["is_sparse_stoch"] = True
 
                 if lamda is None:
-                    lamdas = self.delta_inter_T_lin.keys()
+                    lamdas = self.inter_T_lin.keys()
                 else:
                     lamdas = [lamda]
 
-- 
2.43.0


From 4e855c08cdca4335573558bb45f486b24ea84da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:01 +0000
Subject: [PATCH 13/38] fix: ContTempInstNetwork from an events table (and
 ContTempInstNetwork.load)

---
 src/flowstab/temporal_network.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 1ec2570..e768083 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1943,16 +1943,18 @@ class ContTempInstNetwork(ContTempNetwork):
             end_times_map[utimes[-1]] = utimes[-1]+1
 
             ending_times = [end_times_map[t] for t in starting_times]
-
-            super().__init__(source_nodes=source_nodes,
-                             target_nodes=target_nodes,
-                             starting_times=starting_times,
-                             ending_times=ending_times,
-                             relabel_nodes=relabel_nodes,
-                             reset_event_table_index=reset_event_table_index,
-                             node_to_label_dict=node_to_label_dict,
-                             merge_overlapping_events=False,
-                             events_table=events_table)
+        else:
+            ending_times = []
+
+        super().__init__(source_nodes=source_nodes,
+                         target_nodes=target_nodes,
+                         starting_times=starting_times,
+                         ending_times=ending_times,
+                         relabel_nodes=relabel_nodes,
+                         reset_event_table_index=reset_event_table_index,
+                         node_to_label_dict=node_to_label_dict,
+                         merge_overlapping_events=False,
+                         events_table=events_table)
 
 
         self.events_table["durations"] = [1.0]*self.events_table.shape[0]
-- 
2.43.0


From 2dd838e45e9ac92384f079060c9b712b4ba5edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:01 +0000
Subject: [PATCH 14/38] fix: merging overlapping events lost contact time

---
 src/flowstab/temporal_network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index e768083..6a7b335 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -218,6 +218,8 @@ class ContTempNetwork:
             num_merged = 1
             while num_merged != 0:
                 num_merged = self._merge_overlapping_events()
+            self.events_table["durations"] = self.events_table.ending_times - \
+                                             self.events_table.starting_times
             self._overlapping_events_merged = True
 
 
@@ -1799,8 +1801,10 @@ class ContTempNetwork:
                     if ev2.starting_times < ev1.ending_times:
                         #merge
                         events_to_keep[ev2.Index] = False
-                        self.events_table.loc[ev1.Index,"ending_times"] = ev2.ending_times
-                        ev1._replace(ending_times=ev2.ending_times)
+                        # ev2 can end before ev1
+                        ev1 = ev1._replace(ending_times=max(ev1.ending_times,
+                                                            ev2.ending_times))
+                        self.events_table.loc[ev1.Index,"ending_times"] = ev1.ending_times
                         merged += 1
                     else:
                         ev1 = ev2
-- 
2.43.0


From ea4de5ec1600c7721c5fee5f96cdeb5f6659e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:15 +0000
Subject: [PATCH 15/38] fix: linear sparse transition matrices of a window
 without events

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 6a7b335..5ca1c1a 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1538,7 +1538,7 @@ class ContTempNetwork:
                 logger.debug("no events, lin. trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T_lin[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    self.inter_T_lin[lamda][t_s].append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
                     self.inter_T_lin[lamda][t_s].append(eye(self.num_nodes,
                                                       dtype=np.float64,
-- 
2.43.0


From 044cf106130b4acd7ac4e6cc7cc967230ef145e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:15 +0000
Subject: [PATCH 16/38] fix: networks from an events table relabel their nodes
 and leave the table alone

---
 src/flowstab/temporal_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 5ca1c1a..7b2df56 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -175,7 +175,8 @@ class ContTempNetwork:
                         f"The file at {events_table} could not be parsed."
                     )
             elif isinstance(events_table, pd.DataFrame):
-                self.events_table = events_table
+                # the table of the caller is left as it is
+                self.events_table = events_table.copy()
             else:
                 raise ValueError(
                     "`events_table` must be a pandas DataFrame or the"
@@ -185,10 +186,13 @@ class ContTempNetwork:
             reset_event_table_index = False     
             if relabel_nodes:                   
                 all_nodes = set()
-                all_nodes.update(events_table.source_nodes.tolist())
-                all_nodes.update(events_table.target_nodes.tolist())
+                all_nodes.update(self.events_table.source_nodes.tolist())
+                all_nodes.update(self.events_table.target_nodes.tolist())
                 self.label_to_node_dict = {l : n for n, l in enumerate(sorted(all_nodes))}
                 self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}
+                for nodes in (self._SOURCES, self._TARGETS):
+                    self.events_table[nodes] = [self.label_to_node_dict[n] \
+                                                for n in self.events_table[nodes].tolist()]
             else:
                 self.node_to_label_dict=node_to_label_dict
 
-- 
2.43.0


From 2f08675e9534722a6b09e5d58639ce2fd9ef015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:29 +0000
Subject: [PATCH 17/38] fix: compute_transition_matrices with a tolerance
 changed inter_T

---
 src/flowstab/temporal_network.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 7b2df56..b57ccd5 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1583,23 +1583,25 @@ class ContTempNetwork:
 
 
         if lamda not in self.T.keys():
+            # inter_T is not modified
+            T_init = self.inter_T[lamda][k_init].copy()
             if save_intermediate:
                 if force_csr:
                     # forcing the first matrix to csr, will ensure that
                     # all products are done in csr format,
                     # since CSR @ SparseStochMat t is not implemented
-                    self.T[lamda] = [self.inter_T[lamda][k_init].tocsr()]
+                    self.T[lamda] = [T_init.tocsr()]
                 else:
-                    self.T[lamda] = [self.inter_T[lamda][k_init]]
+                    self.T[lamda] = [T_init]
 
                 if tol is not None:
                     set_to_zeroes(self.T[lamda][0],tol)
                     inplace_csr_row_normalize(self.T[lamda][0])
             else:
                 if force_csr:
-                    self.T[lamda] = self.inter_T[lamda][k_init].tocsr()
+                    self.T[lamda] = T_init.tocsr()
                 else:
-                    self.T[lamda] = self.inter_T[lamda][k_init]
+                    self.T[lamda] = T_init
 
                 if tol is not None:
                     set_to_zeroes(self.T[lamda],tol)
@@ -1619,6 +1621,7 @@ class ContTempNetwork:
 
                 Tk = self.inter_T[lamda][k]
                 if tol is not None:
+                    Tk = Tk.copy()
                     set_to_zeroes(Tk,tol)
                     inplace_csr_row_normalize(Tk)
 
-- 
2.43.0


From 93abb0835c8877c09df928f0ba61aaba78801629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:50 +0000
Subject: [PATCH 18/38] fix: transition matrices of a previous time window were
 kept when laplacians are recomputed

---
 src/flowstab/temporal_network.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index b57ccd5..abc29f3 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1129,6 +1129,13 @@ class ContTempNetwork:
         return t, k
 
 
+    def _drop_derived_matrices(self):
+        """Forget the matrices computed from previous laplacians."""
+        for mat in ["adjacencies", "inter_T", "inter_T_lin", "T", "T_lin",
+                    "_stationary_trans", "delta_inter_T", "delta_inter_T_lin"]:
+            if hasattr(self, mat):
+                delattr(self, mat)
+
     def compute_laplacian_matrices(self, *, t_start=None, t_stop=None,
                                    save_adjacencies=False):
         """Computes the laplacian matrices and saves them in `self.laplacians`
@@ -1184,6 +1191,7 @@ class ContTempNetwork:
         S = I.copy()
 
 
+        self._drop_derived_matrices()
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
@@ -2008,6 +2016,7 @@ class ContTempInstNetwork(ContTempNetwork):
         S = I.copy()
 
 
+        self._drop_derived_matrices()
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
-- 
2.43.0


From 703856914a0bf8c890994ea177a8c4dec8280244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 19/38] fix: contacts of a pair that follow each other were
 lost when the events table is not sorted

---
 src/flowstab/temporal_network.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index abc29f3..25c15ef 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1102,12 +1102,15 @@ class ContTempNetwork:
 
         self.time_grid.times = pd.to_numeric(self.time_grid.times)
 
-        self.time_grid.sort_values("times", inplace=True)
+        # at equal times, an event must end before a later one (possibly of the
+        # same pair) starts, whatever the order of the events in the table
+        starts = np.tile(self.events_table.starting_times.values, 2)
+        self.time_grid = self.time_grid.iloc[
+            np.lexsort((self.time_grid["id"], starts, self.time_grid["times"]))
+        ]
 
         # group events with same times
-        self.time_grid.set_index(["times", "id"], inplace=True)
-
-        self.time_grid.sort_index(inplace=True)
+        self.time_grid = self.time_grid.set_index(["times", "id"])
 
         self.times = self.time_grid.index.levels[0]
 
-- 
2.43.0


From 702d2e39f4929502c8bd894dd8b42391f3a75169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:57 +0000
Subject: [PATCH 20/38] fix: merging overlapping events could delete contacts

---
 src/flowstab/temporal_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 25c15ef..fafb769 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1787,6 +1787,9 @@ class ContTempNetwork:
         """Merge temporally overlapping undirected event between each pair of nodes.
             
         """
+        # events_to_keep is indexed with the index of the table
+        self.events_table = self.events_table.reset_index(drop=True)
+
         events_to_keep = np.ones(self.events_table.shape[0],dtype=bool)
 
         A = self.compute_static_adjacency_matrix()
@@ -1796,6 +1799,9 @@ class ContTempNetwork:
 
             for n2 in (A[n1,:] > 0).nonzero()[1]:
 
+                if n2 < n1:
+                    # events between n1 and n2 were merged from the side of n2
+                    continue
 
                 mask_12 = np.logical_and(self.events_table.source_nodes.values == n1,
                                          self.events_table.target_nodes.values == n2)
-- 
2.43.0


From f5882492f01884ff6f0ddd26738e36ae1aa714a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:11 +0000
Subject: [PATCH 21/38] fix: integral time grid with several times in the same
 interval

---
 src/flowstab/network_clustering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 8f2e6b1..45d762b 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2054,7 +2054,9 @@ class FlowIntegralClustering:
 
             total_time += dtk
 
-            if k+1 in self._k_integral_grid: # this step was the integral from tk to tk_+1
+            # this step was the integral from tk to tk_+1; several times of the
+            # grid may fall on the same step
+            for _ in range(self._k_integral_grid.count(k+1)):
                 if self.is_nparray:
                     IPT_list.append(P(self.p1) @ IPT @ P(self.p1) * (1/total_time))
                 else:
-- 
2.43.0


From 75ef6bc23af255e72b7e6cca83c6084dff80eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:25 +0000
Subject: [PATCH 22/38] fix: time scales given as an iterator were used up by
 their validation

---
 src/flowstab/flow_stability.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index eea13e6..9958b45 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -46,7 +46,6 @@ ProcessException
 from __future__ import annotations
 from typing import Any, Iterable, Iterator
 
-from copy import copy
 
 
 import numpy as np
@@ -313,8 +312,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         elif isinstance(time_scale,
                         Iterable) and not isinstance(time_scale,
                                                      str):
-            # we use a shallow copy
-            _time_scale = copy(time_scale)
+            # we use a shallow copy (an iterator can be used up only once)
+            _time_scale = list(time_scale)
         else:
             raise TypeError(f"Invalid type '{type(time_scale)}'.")
         # make sure only valid values are provided
-- 
2.43.0


From 2fa6af01b439a2b70b1c5cf79e68372167645e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:35 +0000
Subject: [PATCH 23/38] fix: flow clustering after linear approximation of the
 transition matrices

---
 src/flowstab/flow_stability.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 9958b45..c6e4a21 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -135,6 +135,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         self.time_direction = time_direction
         self._flow_clustering_forward = {}
         self._flow_clustering_backward = {}
+        self._linear_t_s = None
         logger.info("Successfully initiated a FlowStability instance!")
 
     def __repr__(self):
@@ -536,6 +537,8 @@ class FlowStability(metaclass=StateMeta, states=States):
             ))
             to_compute(**kwargs)
             logger.info("-> done.")
+        # the flow clustering has to use the matrices computed here
+        self._linear_t_s = kwargs.get('t_s', 10) if linear_approx else None
         return self
 
     @property
@@ -642,9 +645,13 @@ class FlowStability(metaclass=StateMeta, states=States):
             else:
                 _lambda = 1 / _ts
 
+            if self._linear_t_s is None:
+                inter_T = self.temporal_network.inter_T[_lambda]
+            else:
+                inter_T = self.temporal_network.inter_T_lin[_lambda][
+                    self._linear_t_s]
             kwargs.update(dict(
-                T_inter_list=[T.toarray()
-                              for T in self.temporal_network.inter_T[_lambda]],
+                T_inter_list=[T.toarray() for T in inter_T],
                 time_list=self.temporal_network.times[
                     self.temporal_network._k_start_laplacians:
                     self.temporal_network._k_stop_laplacians + 1],
-- 
2.43.0


From da55d0bf4f45ebbc4809e9127118d9cae878b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:39 +0000
Subject: [PATCH 24/38] fix: a flow clustering that could not be built left
 that of an earlier call in place

---
 src/flowstab/flow_stability.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index c6e4a21..908940f 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -670,6 +670,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+                    # do not keep the clustering of an earlier call
+                    self.flow_clustering_backward = (_ts, None)
             else:
                 # not part of the analysis
                 self.flow_clustering_backward = (_ts, None)
@@ -687,6 +689,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+                    # do not keep the clustering of an earlier call
+                    self.flow_clustering_forward = (_ts, None)
             else:
                 # not part of the analysis
                 self.flow_clustering_forward = (_ts, None)
-- 
2.43.0


From 665395bf50831a28f093894cd26cd1af2f7ae2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:42 +0000
Subject: [PATCH 25/38] fix: row normalisation changed the index type, so that
 further operations on the matrix failed

---
 src/flowstab/sparse_stoch_mat.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d71d46b..e68b64b 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -223,10 +223,9 @@ class SparseStochMat:
         """Normalize the rows in place
         """
 
-        self.T_small.indptr = self.T_small.indptr.astype(np.int64, copy=False)
-        self.T_small.indices = self.T_small.indices.astype(np.int64, copy=False)
-
-        _css.inplace_csr_row_normalize(self.T_small.data, self.T_small.indptr,
+        # T_small keeps its own index type, which the other functions expect
+        _css.inplace_csr_row_normalize(self.T_small.data,
+                                       self.T_small.indptr.astype(np.int64, copy=False),
                                        self.T_small.shape[0], row_sum)
 
         self.diag_val = row_sum
@@ -571,16 +570,16 @@ def inplace_csr_row_normalize(X, row_sum=1.0):
         #             X.data[X.indptr[i]:X.indptr[i+1]] -= row_sum_tmp/(X.indptr[i+1]-X.indptr[i])
         #         else:
         #             X.data[X.indptr[i]:X.indptr[i+1]] /= (row_sum_tmp/row_sum[i])
-        X.indptr = X.indptr.astype(np.int64, copy=False)
-        X.indices = X.indices.astype(np.int64, copy=False)
+        # X keeps its own index type, which the other functions expect
+        indptr = X.indptr.astype(np.int64, copy=False)
         if isinstance(row_sum, float):
-            _css.inplace_csr_row_normalize(X.data, X.indptr,
+            _css.inplace_csr_row_normalize(X.data, indptr,
                                                 X.shape[0], row_sum)
 
         elif isinstance(row_sum, np.ndarray) and row_sum.dtype == np.float64:
             assert row_sum.shape[0] == X.shape[0] and len(row_sum.shape) == 1
 
-            _css.inplace_csr_row_normalize_array(X.data, X.indptr,
+            _css.inplace_csr_row_normalize_array(X.data, indptr,
                                                     X.shape[0], row_sum)
         else:
             raise TypeError("row_sum must by float or ndarray of floats")
-- 
2.43.0


From 8f5723dbe16b8ae61437e2103da5af7d387f7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:42 +0000
Subject: [PATCH 26/38] fix: label_to_node_dict was lost when a network is
 saved and loaded

---
 src/flowstab/temporal_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fafb769..af778f0 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -261,6 +261,7 @@ class ContTempNetwork:
             List of attribute names to save.
             The default list is:
                 `attributes_list = ['node_to_label_dict',
+                                  'label_to_node_dict',
                                   'events_table',
                                   'times',
                                   'time_grid',
@@ -291,6 +292,7 @@ class ContTempNetwork:
             matrices_list = matrices
 
         attributes = ["node_to_label_dict",
+                      "label_to_node_dict",
                       "events_table",
                       "times",
                       "time_grid",
@@ -347,6 +349,7 @@ class ContTempNetwork:
             List of attribute names to load.
             The default list is:
                 `attributes_list = ['node_to_label_dict',
+                                  'label_to_node_dict',
                                   'events_table',
                                   'times',
                                   'time_grid',
@@ -375,6 +378,7 @@ class ContTempNetwork:
             matrices_list = matrices
 
         attributes = ["node_to_label_dict",
+                      "label_to_node_dict",
                       "events_table",
                       "times",
                       "time_grid",
-- 
2.43.0


From 80caacca56b51fa0f51e9420086243f995a73d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:05 +0000
Subject: [PATCH 27/38] fix: load_T of matrices of which only some are
 SparseStochMat

---
 src/flowstab/temporal_network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index af778f0..ae077f7 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1000,8 +1000,10 @@ class ContTempNetwork:
             if load_dict.get("is_sparse_stoch", False):
 
                 for lamda in load_dict["T"].keys():
+                    T = load_dict["T"][lamda]
+                    # matrices of other rates may have been saved as csr
                     return_dict["T"][lamda] = \
-                        SparseStochMat(**load_dict["T"][lamda])
+                        SparseStochMat(**T) if isinstance(T, dict) else T
 
             else:
                 for lamda in load_dict["T"].keys():
@@ -1018,8 +1020,9 @@ class ContTempNetwork:
 
                     for t_s in load_dict["T_lin"][lamda].keys():
 
+                        T = load_dict["T_lin"][lamda][t_s]
                         return_dict["T_lin"][lamda][t_s] = \
-                            SparseStochMat(**load_dict["T_lin"][lamda][t_s])
+                            SparseStochMat(**T) if isinstance(T, dict) else T
 
             else:
                 for lamda in load_dict["T_lin"].keys():
-- 
2.43.0


From 7c3713dccf7463b758789cbd3aee3b82891e66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:40 +0000
Subject: [PATCH 28/38] fix: networks saved under names that differ after a dot
 overwrote each other

---
 src/flowstab/temporal_network.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ae077f7..499aff7 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -318,7 +318,11 @@ class ContTempNetwork:
                 save_dict[mat] = getattr(self,mat)
 
 
-        with open(os.path.splitext(filename)[0] + ".pickle", "wb") as fopen:
+        # other dots in the name, e.g. of a number, are not an extension
+        if os.path.splitext(filename)[-1] != ".pickle":
+            filename = os.fspath(filename) + ".pickle"
+
+        with open(filename, "wb") as fopen:
             pickle.dump(save_dict, fopen)
 
 
@@ -397,7 +401,10 @@ class ContTempNetwork:
 
         # all in a pickle file
 
-        graph_dict = pd.read_pickle(os.path.splitext(filename)[0] +".pickle")
+        if os.path.splitext(filename)[-1] != ".pickle":
+            filename = os.fspath(filename) + ".pickle"
+
+        graph_dict = pd.read_pickle(filename)
 
         events_table = graph_dict.pop("events_table")
 
-- 
2.43.0


From 5c7ab4cee51016c04c39e418e78c69cabc5ab1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:46 +0000
Subject: [PATCH 29/38] fix: from_full_csr_matrix wrote past its buffers when
 rows outside nz_rowcols have no stored element

---
 src/flowstab/_cython_sparse_stoch.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index f3877cf..dbd322f 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -604,9 +604,14 @@ def sparse_stoch_from_full_csr(int[:] nz_rowcols,
         
         cdef Py_ssize_t k, its, tsrow, tbrow, i, nzr        
         
-        cdef Py_ssize_t Ts_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+        cdef Py_ssize_t Ts_nnz = 0
         cdef Py_ssize_t Ts_size = nz_rowcols.shape[0]
 
+        # the other rows may have no stored element (e.g. diag_val = 0)
+        for k in range(Ts_size):
+            tbrow = nz_rowcols[k]
+            Ts_nnz += Tf_indptr[tbrow+1] - Tf_indptr[tbrow]
+
         
         cdef double[:] Ts_data = np.zeros(Ts_nnz, dtype=np.float64)
         cdef int[:] Ts_indices = -1*np.ones(Ts_nnz, dtype=np.int32)
-- 
2.43.0


From 91a8847925800a1bb69d83aec05ed67122ecede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:58 +0000
Subject: [PATCH 30/38] fix: an ndarray on the left of a SparseStochMat in +, -
 and @ raised instead of using the reflected operator

---
 src/flowstab/sparse_stoch_mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index e68b64b..de21fea 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -85,6 +85,9 @@ class SparseStochMat:
         
     """
 
+    # ndarray + A, ndarray - A and ndarray @ A are left to the methods below
+    __array_ufunc__ = None
+
     def __init__(self, size:int, data:NDArray, indices:NDArray, indptr:NDArray,
                  nz_rowcols:NDArray, diag_val:float=1.0):
         """Initialize SparseStochMat
-- 
2.43.0


From 8d40f25b4be21e53ecf373689102b76c430e971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:04 +0000
Subject: [PATCH 31/38] fix: scaling a 1x1 matrix by a diagonal raised
 IndexError

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index de21fea..254dd0d 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -623,7 +623,7 @@ def inplace_csr_matmul_diag(A, diag_vec):
     """
     assert isinstance(diag_vec, np.ndarray)
 
-    diag_vec = diag_vec.squeeze()
+    diag_vec = np.atleast_1d(diag_vec.squeeze())
 
     assert diag_vec.shape[0] == diag_vec.size
 
@@ -655,7 +655,7 @@ def inplace_diag_matmul_csr(A:csr_matrix | csc_matrix, diag_vec: NDArray)->None:
     """
     assert isinstance(diag_vec, np.ndarray)
 
-    diag_vec = diag_vec.squeeze()
+    diag_vec = np.atleast_1d(diag_vec.squeeze())
 
     assert diag_vec.shape[0] == diag_vec.size
 
-- 
2.43.0


From ed3c8a7b745305fef7681145afad2c4a591a8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 32/38] fix: from_full_csr_matrix permuted the matrix when
 nz_rowcols is not sorted

---
 src/flowstab/sparse_stoch_mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 254dd0d..c1538a0 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -197,7 +197,7 @@ class SparseStochMat:
             nz_rowcols = np.union1d(nz_rows,nz_cols)
 
         res = _css.sparse_stoch_from_full_csr(
-                np.array(nz_rowcols, dtype=np.int32),
+                np.unique(np.array(nz_rowcols, dtype=np.int32)), #sorted unique
                 Tcsr.data.astype(dtype=np.float64),
                 Tcsr.indices,
                 Tcsr.indptr,
-- 
2.43.0


From 5d03d258fe7c0a14d7da9f7c537e39c1820977f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:00 +0000
Subject: [PATCH 33/38] fix: a Partition does not change the clusters it was
 given

---
 src/flowstab/network_clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 45d762b..cf4e8e3 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -102,7 +102,8 @@ class Partition:
             self.node_to_cluster_dict = {n : n for n in range(self.num_nodes)}
 
         elif cluster_list is not None and node_to_cluster_dict is None:
-            self.cluster_list = cluster_list
+            # own sets: move_node must not change those of the caller
+            self.cluster_list = [set(c) for c in cluster_list]
             self.node_to_cluster_dict = {}
             for i, clust in enumerate(self.cluster_list):
                 for node in clust:
-- 
2.43.0


From 2cb7ebf3381904fac10bde009ed2e617852943eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:01 +0000
Subject: [PATCH 34/38] fix: csc_row_normalize leaves a CSR argument unchanged

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 499aff7..1baed9a 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2395,7 +2395,7 @@ def csc_row_normalize(X):
     """Row normalize scipy sparse csc matrices.
     returns a copy of X row-normalized and in CSC format.
     """
-    X = X.tocsr()
+    X = X.tocsr(copy=True)
 
     for i in range(X.shape[0]):
         row_sum = X.data[X.indptr[i]:X.indptr[i+1]].sum()
-- 
2.43.0


From 052a4f5832e8ad899f422eeaacddf41660771b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 35/38] fix: norm_var_information counted empty clusters

A gap in the cluster numbers of a node-to-cluster dictionary, or an empty set
in a list, made min() raise or the trivial case n1 == n2 == N return 0 for
different partitions.
---
 src/flowstab/network_clustering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index cf4e8e3..3b1ac4f 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2314,6 +2314,10 @@ def norm_var_information(clusters1, clusters2, N=None, use_clust_list=False):
         # make sure it is a list of sets
         clusters2 = [set(c) for c in clusters2]
 
+    # empty clusters do not contribute
+    clusters1 = [c for c in clusters1 if c]
+    clusters2 = [c for c in clusters2 if c]
+
     # num nodes
     if N is None:
         N = sum(len(clust) for clust in clusters1)
-- 
2.43.0


From f5dbc9f96d5c12bfef899dc868dd5c0cce4c37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 36/38] fix: jaccard_distance returned None

---
 src/flowstab/network_clustering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 3b1ac4f..2a47d67 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2197,6 +2197,8 @@ def jaccard_distance(clusters1, clusters2):
         if same_in_1 and not same_in_2:
             diff += 1
 
+    return diff/(same + diff) if same + diff > 0 else 0.0
+
 
 def norm_mutual_information(clusters1, clusters2):
     """Returns the normalized mutial information between two
-- 
2.43.0


From f1925c4f2e0967a063398be34c442b244594cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 37/38] fix: static_clustering takes the stationary
 distribution from the eigenvector of eigenvalue 1

---
 src/flowstab/network_clustering.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 2a47d67..53aced2 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2471,9 +2471,10 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
 
         if is_csr:
 
-            w, v = eigs(Tstat.T, k=1, which="LM")
+            # other eigenvalues can have the same modulus, not the same real part
+            w, v = eigs(Tstat.T, k=1, which="LR")
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            assert np.allclose(w[0], 1)
 
             pi = v.squeeze().real
             pi = pi/pi.sum()
@@ -2481,9 +2482,11 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         else:
             w, v = np.linalg.eig(Tstat.T)
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            # the eigenvalues are in no particular order
+            k = np.argmin(np.abs(w - 1))
+            assert np.allclose(w[k], 1)
 
-            pi = v[:,0].real
+            pi = v[:,k].real
             pi = pi/pi.sum()
     else:
         pi = degs/degs.sum()
-- 
2.43.0


From 6664077853dfa6aad8b4fc7896c00bffead2916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:36 +0000
Subject: [PATCH 38/38] fix: individuals of a synthetic network may be listed
 in any order

They are looked up by ID, which was taken as the position in the list given:
rates and groups of other individuals were used otherwise.
---
 src/flowstab/synth_temp_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index 69807d5..7913677 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -268,7 +268,8 @@ class SynthTempNetwork:
         # number of individuals
         self.N = len(individuals)
 
-        # list of individuals
+        # list of individuals, in the order of their IDs: they are looked up by ID
+        individuals = sorted(individuals, key=lambda ind: ind.ID)
         self.individuals = individuals
 
         # list of individual IDs
-- 
2.43.0

