N, T, S = "network_clustering.py", "temporal_network.py", "sparse_stoch_mat.py"
CASES = [
    ("P06", "fire", [(N, "[set(c) for c in cluster_list]", "[c for c in cluster_list]")], "partition keeps the caller's sets"),
    ("P06", "fire", [(N, "[set(c) for c in cluster_list]", "list(cluster_list)")], "partition keeps the caller's sets (list)"),
    ("P06", "quiet", [(N, "[set(c) for c in cluster_list]", "[{n for n in c} for c in cluster_list]")], "sets rebuilt another way"),
    ("P06", "quiet", [(N, "[set(c) for c in cluster_list]", "[c.copy() for c in cluster_list]")], "sets copied"),
    ("P06", "fire", [(T, "X = X.tocsr(copy=True)", "X = X.tocsr()")], "csc_row_normalize on the caller's csr"),
    ("P06", "quiet", [(T, "X = X.tocsr(copy=True)", "X = X.tocsr().copy()")], "csc_row_normalize copies afterwards"),
    ("P06", "fire", [(S, "        PT = T.copy()\n", "        PT = T\n")], "from_T scales the caller's matrix"),
    ("P06", "fire", [(S, "        p2m1 = p2.copy()\n", "        p2m1 = np.asarray(p2)\n")], "from_T_forward inverts the caller's p2"),
    ("P06", "fire", [(S, "csr_matrix((np.array(data, dtype=np.float64)", "csr_matrix((np.asarray(data, dtype=np.float64)")], "SparseStochMat keeps the caller's data, which normalisation changes"),
    ("P06", "quiet", [(S, "np.array(indices, dtype=np.int32)", "np.asarray(indices, dtype=np.int32)")], "index arrays are shared, never changed"),
    ("P06", "fire", [(N, "PTk = Tk.copy().tocsr()", "PTk = Tk.tocsr()")], "integral scales the given matrices"),
    ("P06", "quiet", [(N, "PTk = Tk.copy().tocsr()", "PTk = Tk.tocsr().copy()")], "copy after conversion"),
    ("P06", "fire", [(N, "self._S = S.copy()", "self._S = S")], "S thresholded in place"),
    ("P06", "fire", [(N, "A_sl = A.copy()", "A_sl = A")], "static clustering changes the adjacency matrix"),
    ("P06", "fire", [(T, "self.events_table = events_table.copy()", "self.events_table = events_table")], "network sorts the caller's table"),
    ("P06", "fire", [(T, "interT = interT.copy()", "pass")], "rounding for the file changes memory"),
    ("P06", "fire", [(T, "T_init = self.inter_T[lamda][k_init].copy()", "T_init = self.inter_T[lamda][k_init]")], "first matrix rounded in inter_T"),
    ("P06", "fire", [(T, "                    Tk = Tk.copy()\n", "")], "inter_T rounded while multiplying"),
    ("P06", "fire", [(T, "T = self.T[lamda].copy()", "T = self.T[lamda]")], "save_T rounds T"),
    ("P06", "fire", [(T, "        return (1-t)*I + t*T.tocsr()", "        T = T.tocsr()\n        T *= t\n        return (1-t)*I + T")], "linear approximation scales its argument"),
    ("P06", "fire", [(T, "    L_small, nz_inds, size = remove_nnz_rowcol(L)\n", "    L.data = -fact*L.data\n    L_small, nz_inds, size = remove_nnz_rowcol(L)\n")], "exponential rewrites the laplacian"),
    ("P06", "fire", [(N, "    # num nodes\n    N = sum(len(clust) for clust in clusters1)\n", "    clusters1.sort(key=len)\n    N = sum(len(clust) for clust in clusters1)\n")], "mutual information sorts the clusters"),
    ("P06", "quiet", [(N, "    # num nodes\n    N = sum(len(clust) for clust in clusters1)\n", "    clusters1 = sorted(clusters1, key=len)\n    N = sum(len(clust) for clust in clusters1)\n")], "mutual information on a sorted copy"),
    ("P06", "fire", [(N, "        self.p1 = p1\n\n        PT_list", "        p1 = np.asarray(p1)\n        p1 /= p1.sum()\n        self.p1 = p1\n\n        PT_list")], "densities normalised in place"),
    ("P06", "quiet", [(N, "        self.p1 = p1\n\n        PT_list", "        p1 = np.asarray(p1)\n        p1 = p1 / p1.sum()\n        self.p1 = p1\n\n        PT_list")], "densities normalised in a new array"),
    ("P06", "fire", [(N, "            self.time_list = self.time_list[::-1]", "            self.time_list = self.time_list[::-1]\n            T_inter_list and T_inter_list.reverse()")], "matrices reversed in place"),
    ("P06", "quiet", [(T, "self.events_table = events_table.copy()", "tab = events_table.copy()\n                self.events_table = tab")], "table copied through a name"),
]
