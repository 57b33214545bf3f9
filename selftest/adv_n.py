"""independent bugs written from the property's text (batch n): constructors, differences, pure-python kernels, aggregation"""
TN, NC, SS, SUB, FS, ST = "temporal_network.py", "network_clustering.py", "sparse_stoch_mat.py", "_cython_subst.py", "flow_stability.py", "state_tracking.py"
CASES = [
 # 0 sparse clustering constructor
 ("P21", NC, "            p2 = p1 @ self.T\n", "            p2 = p1\n", -1),
 ("P21+P13+P20", NC, "            self._in_neighs.append([self._S.PTcsc.indices[i] for i in \\\n                                     range(self._S.PTcsc.indptr[node],self._S.PTcsc.indptr[node+1])])\n", "            self._in_neighs.append([self._S.PT.indices[i] for i in \\\n                                     range(self._S.PT.indptr[node],self._S.PT.indptr[node+1])])\n", 0),
 ("P21+P13+P20", NC, "            self._neighs.append(list(set(self._out_neighs[node] + self._in_neighs[node])))\n", "            self._neighs.append(list(set(self._out_neighs[node]) & set(self._in_neighs[node])))\n", 0),
 ("P06+P22", NC, "            self._S = S.copy()\n", "            self._S = S\n", 0),
 # 4
 ("P09", NC, "            self._rnd_state = np.random.RandomState(rnd_seed)\n", "            self._rnd_state = np.random.RandomState()\n", 0),
 ("P09", NC, "            self._rnd_state = np.random.RandomState(rnd_seed)\n", "            self._rnd_state = np.random.RandomState()\n", 1),
 ("P12+P22", NC, "                                     cluster_list=cluster_list,\n                                     node_to_cluster_dict=node_to_cluster_dict)\n", "                                     cluster_list=cluster_list)\n", 1),
 ("P21", NC, "        return SparseAutocovMat.from_T(self.T,\n                                         self.p1,\n                                         self.p2)\n", "        return SparseAutocovMat.from_T(self.T,\n                                         self.p1)\n", 0),
 # 8 differences
 ("P05+P30", TN, "                        set_to_zeroes(M, tol=tol, use_absolute_value=True)\n", "                        set_to_zeroes(M, tol=tol)\n", 0),
 ("P05", TN, "                self.delta_inter_T[lamda] = [self.inter_T[lamda][k+1] - \\\n                                                  self.inter_T[lamda][k] for k in \\\n", "                self.delta_inter_T[lamda] = [self.inter_T[lamda][k] - \\\n                                                  self.inter_T[lamda][k+1] for k in \\\n", 0),
 ("P05", TN, "range(len(self.inter_T_lin[lamda][t_s])-1)]\n", "range(1, len(self.inter_T_lin[lamda][t_s])-1)]\n", 0),
 ("P05", TN, "            if lamda not in self.delta_inter_T.keys():\n\n                self.delta_inter_T[lamda] =", "            if True:\n\n                self.delta_inter_T[lamda] =", 0),
 # 12 aggregation
 ("P21+P22", NC, "                S[s,t] = self._S[s_cluster_to_node_list[s],\n                               t_cluster_to_node_list[t]].sum()\n", "                S[s,t] = self._S[s_cluster_to_node_list[s],\n                               t_cluster_to_node_list[t]].mean()\n", 0),
 ("P21+P22", NC, "                p2[t] = self.p2[t_cluster_to_node_list[t]].sum()\n", "                p2[t] = self.p1[t_cluster_to_node_list[t]].sum()\n", 0),
 ("P21+P22", NC, "        T = T/T.sum(axis=1)[:, np.newaxis]\n", "        T = T/T.sum(axis=0)[:, np.newaxis]\n", 0),
 ("P21+P22", NC, "        if partition.get_num_clusters() == self.num_nodes:\n            # nothing to aggregate\n", "        if partition.get_num_clusters() >= self.num_nodes - 1:\n            # nothing to aggregate\n", 0),
 # 16 pure python kernels
 ("P25", SUB, "            T_s_indices[its] = BtoS[Tf_indices[k]]\n", "            T_s_indices[its] = Tf_indices[k]\n", 0),
 ("P25", SUB, "        if self.b[pos] < self.current_row:\n            self.w[pos] = value\n", "        if self.b[pos] <= self.current_row:\n            self.w[pos] = value\n", 0),
 ("P25", SUB, "            if diag_val != 0:\n                data.append(diag_val)\n", "            if diag_val > 0:\n                data.append(diag_val)\n", 0),
 ("P20", SUB, "        s -= p1[k]*p2[idx[i]]\n        s -= p1[idx[i]]*p2[k]\n    s -= p1[k]*p2[k]\n", "        s -= p1[k]*p2[idx[i]]\n        s -= p1[idx[i]]*p2[k]\n    s += p1[k]*p2[k]\n", 0),
 # 20
 ("P20", SUB, "        if idx_set.count(PTcscindices[j]):\n            s += PTcscdata[j]\n", "        if idx_set.count(PTcscindices[j]):\n            s += PTdata[j]\n", 0),
 ("P20", SUB, "    while j < PTindptr[k+1] and PTindices[j] < k:\n        j += 1\n    if j < PTindptr[k+1] and PTindices[j] == k:\n        s += PTdata[j]\n", "    if j < PTindptr[k+1] and PTindices[j] == k:\n        s += PTdata[j]\n", 0),
 ("P21", SUB, "            if col_set.count(Aindices[j]):\n                s += Adata[j]\n", "            if col_set.count(Aindices[j]) == 0:\n                s += Adata[j]\n", 0),
 ("P25+P29+P21", SUB, "            Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)\n", "            Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= row_sum_tmp\n", 0),
]
