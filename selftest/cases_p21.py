N = "network_clustering.py"
M = "sparse_stoch_mat.py"
K = "_cython_fast_funcs.pyx"
X = "_cython_sparse_stoch.pyx"
R = "                R[s] = self._S[idx].sum()\n"
AGG = """        for s in range(num_clusters):
            p1[s] = self.p1[s_cluster_to_node_list[s]].sum()
            for t in range(num_clusters):
                p2[t] = self.p2[t_cluster_to_node_list[t]].sum()

                # idx = np.ix_(cluster_to_node_list[s], cluster_to_node_list[t])
                T[s,t] = self.T[s_cluster_to_node_list[s],
                               t_cluster_to_node_list[t]].sum()
                S[s,t] = self._S[s_cluster_to_node_list[s],
                               t_cluster_to_node_list[t]].sum()
"""
CASES = [
 ("P21", "fire", [(K, "            S_view[i,j] = p1[i]*T[i,j] - p1[i]*p2[j]", "            S_view[i,j] = p1[i]*T[i,j] - p2[i]*p1[j]")], "null model transposed"),
 ("P21", "fire", [(K, "            S_view[i,j] = p1[i]*T[i,j] - p1[i]*p2[j]", "            S_view[i,j] = p1[i]*T[i,j] - p1[i]*p1[j]")], "p1p1"),
 ("P21", "fire", [(K, "            S_view[i,j] = p1[i]*T[i,j] - p1[i]*p2[j]", "            S_view[i,j] = p1[j]*T[i,j] - p1[i]*p2[j]")], "p1[j]"),
 ("P21", "fire", [(K, "            S_view[i,j] = p1[i]*T[i,j] - p1[i]*p2[j]", "            S_view[i,j] = p1[i]*T[j,i] - p1[i]*p2[j]")], "T transposed"),
 ("P21", "fire", [(N, "S = np.diag(self.p1) @ self.T - np.outer(self.p1,self.p2)", "S = self.T @ np.diag(self.p1) - np.outer(self.p1,self.p2)")], "columns scaled"),
 ("P21", "fire", [(N, "S = np.diag(self.p1) @ self.T - np.outer(self.p1,self.p2)", "S = np.diag(self.p1) @ self.T - np.outer(self.p2,self.p1)")], "outer swapped"),
 ("P21", "fire", [(M, "        inplace_diag_matmul_csr(PT, p1)\n\n        return cls(PT=PT, p1=p1, p2=p2)", "        inplace_csr_matmul_diag(PT, p1)\n\n        return cls(PT=PT, p1=p1, p2=p2)")], "sparse scaled columns"),
 ("P21", "fire", [(M, "        return cls(PT=PT, p1=p1, p2=p2)", "        return cls(PT=PT, p1=p2, p2=p1)")], "sparse null swapped"),
 ("P21", "fire", [(M, "        inplace_csr_matmul_diag(PT, p1)\n\n        if p1_scalar", "        inplace_csr_matmul_diag(PT, p2)\n\n        if p1_scalar")], "forward p2"),
 ("P21", "fire", [(M, "            newp2[k] = oldp2[idx].sum()", "            newp2[k] = oldp1[idx].sum()")], "agg p2"),
 ("P21", "fire", [(M, "coo_matrix((PTdata,(PTrows,PTcols))", "coo_matrix((PTdata,(PTcols,PTrows))")], "agg transposed"),
 ("P21", "fire", [(M, "[0]+[len(idx) for idx in idx_list]", "[len(idx) for idx in idx_list]")], "offsets"),
 ("P21", "fire", [(X, "                                      idxs_array[idxptr[row]:idxptr[row+1]],\n                                      idxs_array[idxptr[col]:idxptr[col+1]])", "                                      idxs_array[idxptr[col]:idxptr[col+1]],\n                                      idxs_array[idxptr[row]:idxptr[row+1]])")], "kernel transposed"),
 ("P21", "fire", [(X, "            if pt > 0.0:\n", "            if pt > 1e-6:\n")], "kernel threshold"),
 ("P21", "fire", [(X, "        for j in range(Aindptr[row],Aindptr[row+1]):\n            if col_set.count(Aindices[j]):\n                s += Adata[j]\n                \n    return s", "        for j in range(Aindptr[row],Aindptr[row+1]-1):\n            if col_set.count(Aindices[j]):\n                s += Adata[j]\n                \n    return s")], "submat last"),
 ("P21", "fire", [(N, R, "                R[s] = np.diag(self._S[idx]).sum()\n")], "trace") if 0 else ("P21", "fire", [(N, R, "                R[s] = self.T[idx].sum()\n")], "T block"),
 ("P21", "fire", [(N, AGG, AGG.replace("self._S[s_cluster_to_node_list[s],\n                               t_cluster_to_node_list[t]]", "self._S[s_cluster_to_node_list[t],\n                               t_cluster_to_node_list[s]]"))], "agg S transposed"),
 ("P21", "fire", [(N, AGG, AGG.replace("p2[t] = self.p2[", "p2[t] = self.p1["))], "agg p2 dense"),
 ("P21", "quiet", [(K, "            S_view[i,j] = p1[i]*T[i,j] - p1[i]*p2[j]", "            S_view[i,j] = p1[i]*(T[i,j] - p2[j])")], "factored"),
 ("P21", "quiet", [(N, "S = np.diag(self.p1) @ self.T - np.outer(self.p1,self.p2)", "S = self.p1[:, np.newaxis]*self.T - np.outer(self.p1,self.p2)")], "broadcast"),
 ("P21", "quiet", [(N, "S = np.diag(self.p1) @ self.T - np.outer(self.p1,self.p2)", "PT = np.diag(self.p1) @ self.T\n            S = PT - self.p1[:, None]*self.p2[None, :]")], "broadcast 2"),
 ("P21", "quiet", [(N, R, "                block = self._S[idx]\n                R[s] = np.sum(block)\n")], "np.sum"),
 ("P21", "quiet", [(N, "                idx = np.ix_(cluster_to_node_list[s], cluster_to_node_list[s])\n" + R, "                nodes = cluster_to_node_list[s]\n                R[s] = self._S[nodes[:, np.newaxis], nodes[np.newaxis, :]].sum()\n")], "newaxis"),
 ("P21", "quiet", [(N, AGG, """        for t in range(num_clusters):
            p2[t] = self.p2[t_cluster_to_node_list[t]].sum()
        for s in range(num_clusters):
            rows = s_cluster_to_node_list[s]
            p1[s] = self.p1[rows].sum()
            for t in range(num_clusters):
                cols = t_cluster_to_node_list[t]
                T[s,t] = self.T[rows, cols].sum()
                S[s,t] = self._S[rows, cols].sum()
""")], "agg split"),
 ("P21", "quiet", [(M, "        for k, idx in enumerate(idx_list):\n            newp1[k] = oldp1[idx].sum()\n            newp2[k] = oldp2[idx].sum()\n", "        for k in range(len(idx_list)):\n            newp1[k] = oldp1[idx_list[k]].sum()\n            newp2[k] = oldp2[idx_list[k]].sum()\n")], "range"),
 ("P21", "quiet", [(M, "            p0 = (self.p1[row] * self.p2[idx]).sum()", "            p0 = self.p1[row] * self.p2[idx].sum()")], "factored sum"),
 ("P21", "quiet", [(X, "            if pt > 0.0:\n                Bdata.push_back(pt)\n                Brows.push_back(row)\n                Bcols.push_back(col)", "            if pt > 0:\n                Brows.push_back(row)\n                Bcols.push_back(col)\n                Bdata.push_back(pt)")], "order"),
]
CASES += [
 ("P21", "fire", [(N, "            p2 = p1 @ self.T\n", "            p2 = self.T @ p1\n")], "default p2"),
 ("P21", "fire", [(N, "            p2 = p1 @ self.T\n", "            p2 = p1\n")], "default p2=p1"),
 ("P21", "fire", [(M, "            self.PTcsc = self.PT.tocsc()\n", "            self.PTcsc = self.PT\n")], "csc"),
 ("P21", "quiet", [(N, "            p2 = p1 @ self.T\n", "            p2 = self.T.T @ p1\n")], "default p2 T.T"),
 ("P21", "quiet", [(N, "        self.p1 = p1\n\n        self.p2 = p2\n\n        self.S_threshold", "        self.p1 = p1.copy()\n        self.p2 = p2.copy()\n\n        self.S_threshold")], "copies"),
 ("P21", "fire", [(N, "                S[s,t] = self._S[s_cluster_to_node_list[s],\n                               t_cluster_to_node_list[t]].sum()\n", "                S[s,t] = self._S[s_cluster_to_node_list[s],\n                               t_cluster_to_node_list[t]].mean()\n")], "aggregated S is a mean"),
]
