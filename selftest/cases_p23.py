C = "network_clustering.py"
D = "                PTk = Tk @ P(1/pk) @ Tk.T * dtk"
INIT = "        PT_list = self._compute_integral(self.T_list, self.time_list,"
CNT = "            for _ in range(self._k_integral_grid.count(k+1)):"
S = "                    inplace_diag_matmul_csr(IPT_copy, self.p1)\n                    inplace_csr_matmul_diag(IPT_copy, self.p1)\n"
CASES = [
 ("P23", "fire", [(C, D, "                PTk = Tk @ P(1/pk) @ Tk.T")], "dense: no duration"),
 ("P23", "fire", [(C, D, "                PTk = Tk.T @ P(1/pk) @ Tk * dtk")], "dense: transposed"),
 ("P23", "fire", [(C, D, "                PTk = Tk @ P(pk) @ Tk.T * dtk")], "dense: p_k not inverted"),
 ("P23", "fire", [(C, "                PTk.data *= dtk # operating on data avoids making a copy here.\n", "")], "sparse: no duration"),
 ("P23", "fire", [(C, "inplace_csr_matmul_diag(PTk,np.sqrt(1/pk))", "inplace_csr_matmul_diag(PTk,1/pk)")], "sparse: no root"),
 ("P23", "fire", [(C, "inplace_csr_matmul_diag(PTk,np.sqrt(1/pk))", "inplace_diag_matmul_csr(PTk,np.sqrt(1/pk))")], "sparse: rows scaled"),
 ("P23", "fire", [(C, "PTk = sparse_gram_matrix(PTk, transpose=True,", "PTk = sparse_gram_matrix(PTk, transpose=False,")], "sparse: gram of the columns"),
 ("P23", "fire", [(C, S, "                    inplace_diag_matmul_csr(IPT_copy, self.p1)\n")], "weights on one side"),
 ("P23", "fire", [(C, "                    IPT_copy.data *= (1/total_time)\n", "                    IPT_copy.data *= (1/dtk)\n")], "divided by the last step"),
 ("P23", "fire", [(C, "P(self.p1) @ IPT @ P(self.p1) * (1/total_time)", "P(self.p1) @ IPT * (1/total_time)")], "dense: weights on one side"),
 ("P23", "fire", [(C, "            #reverse time\n            dt_list *= -1\n", "            #reverse time\n            pass\n")], "negative durations"),
 ("P23", "fire", [(C, "        total_time = 0\n\n        IPT_list", "        total_time = 1\n\n        IPT_list")], "duration starts from one"),
 ("P23", "fire", [(C, "            total_time += dtk\n", ""), (C, "            IPT = IPT + PTk\n", "            IPT = IPT + PTk\n            total_time = dtk\n")], "duration not accumulated"),
 ("P23", "fire", [(C, CNT, "            if k+1 in self._k_integral_grid:")], "grid times sharing a step"),
 ("P23", "fire", [(C, CNT, "            for _ in range(self._k_integral_grid.count(k)):")], "entry one step late"),
 ("P23", "fire", [(C, "                pk = self.p1 @ Tk\n                # in order to avoid nan in PTk due to 0 * np.inf\n                pk[np.where(pk == 0)] = 1\n", "                pk = self.p1 @ Tk\n")], "dense: zeros divided"),
 ("P23", "fire", [(C, "                pk = self.p1 @ Tk\n", "                pk = Tk @ self.p1\n")], "dense: weights from the wrong side"),
 ("P23", "fire", [(C, "[PT - np.outer(self.p1,self.p1) for PT in PT_list]", "[PT for PT in PT_list]")], "no null model"),
 ("P23", "fire", [(C, "            if (self.p1 == self.p1[0]).all():\n                pp1 = self.p1[0]", "            if self.p1.size:\n                pp1 = self.p1[0]")], "weights replaced by the first"),
 ("P23", "fire", [(C, "[SparseAutocovMat(PT, pp1, pp1, PT_symmetric=True) for PT in PT_list]", "[SparseAutocovMat(PT, pp1, pp1, PT_symmetric=False) for PT in PT_list[1:]]")], "one covariance lost"),
 ("P23", "fire", [(C, "                    IPT_copy = IPT.copy()\n", "                    IPT_copy = IPT\n")], "the integral itself is scaled"),
 ("P23", "fire", [(C, "                PTk = Tk.copy().tocsr()\n", "                PTk = Tk.tocsr()\n")], "the transition matrix itself is scaled"),
 ("P23", "fire", [(C, "IPT_copy = IPT_copy + IPT_copy.T - diags(IPT_copy.diagonal())", "IPT_copy = IPT_copy + IPT_copy.T")], "MKL: diagonal twice"),
 ("P23", "fire", [(C, "T=self.T_list[self._k_integral_grid[k+1]-1],", "T=self.T_list[self._k_integral_grid[k]],")], "search: matrix of the step before"),
 ("P23", "fire", [(C, "                self.clustering[k] = SparseClustering(p1=self.p1, p2=None,\n                                  S=self.I_list[k],", "                self.clustering[k] = SparseClustering(p1=self.p1, p2=None,\n                                  S=self.I_list[-1],")], "search: last covariance"),
 ("P23", "fire", [(C, "                set_to_zeroes(PTk, rtol, use_absolute_value=True)", "                set_to_zeroes(PTk, 1e-2, use_absolute_value=True)")], "coarse pruning"),
 ("P23", "fire", [(C, "            p1 = np.ones(self.num_nodes, dtype=np.float64)/self.num_nodes\n\n        self.p1 = p1\n\n        PT_list", "            p1 = np.ones(self.num_nodes, dtype=np.float64)\n\n        self.p1 = p1\n\n        PT_list")], "default weights do not sum to one"),
 ("P23", "quiet", [(C, D, "                inv_pk = P(1/pk)\n                flow = Tk @ inv_pk @ Tk.T\n                PTk = dtk * flow")], "dense: named steps"),
 ("P23", "quiet", [(C, D, "                PTk = (Tk / pk) @ Tk.T * dtk")], "dense: broadcasting"),
 ("P23", "quiet", [(C, D, "                PTk = np.dot(Tk * (1/pk), Tk.transpose()) * dtk")], "dense: dot"),
 ("P23", "quiet", [(C, "                    IPT_copy.data *= (1/total_time)\n", "                    IPT_copy.data /= total_time\n")], "division"),
 ("P23", "quiet", [(C, S, "                    inplace_csr_matmul_diag(IPT_copy, self.p1)\n                    inplace_diag_matmul_csr(IPT_copy, self.p1)\n")], "other side first"),
 ("P23", "quiet", [(C, "            IPT = IPT + PTk\n\n            total_time += dtk\n", "            total_time += dtk\n            IPT += PTk\n")], "reordered"),
 ("P23", "quiet", [(C, "                pk[np.where(pk == 0)] = 1\n\n                PTk = Tk @", "                pk[pk == 0] = 1\n\n                PTk = Tk @")], "mask"),
 ("P23", "quiet", [(C, CNT, "            for k_grid in self._k_integral_grid:\n                if k_grid != k+1:\n                    continue")], "loop over the grid"),
 ("P23", "quiet", [(C, "        for k, (Tk, dtk) in enumerate(zip(T_list, dt_list)):", "        for k in range(len(T_list)):\n            Tk = T_list[k]\n            dtk = dt_list[k]")], "index loop"),
 ("P23", "quiet", [(C, "        dt_list = np.diff(time_list)\n        if time_list[-1] < time_list[0]:\n            #reverse time\n            dt_list *= -1\n", "        dt_list = np.abs(np.diff(time_list))\n")], "absolute value"),
 ("P23", "quiet", [(C, "            self.I_list = [PT - np.outer(self.p1,self.p1) for PT in PT_list]", "            null_model = np.outer(self.p1, self.p1)\n            self.I_list = []\n            for PT in PT_list:\n                self.I_list.append(PT - null_model)")], "loop for the null model"),
 ("P23", "quiet", [(C, "                PTk = Tk.copy().tocsr()\n\n                inplace_csr_matmul_diag(PTk,np.sqrt(1/pk))\n", "                PTk = Tk.copy().tocsr()\n                weights = 1/np.sqrt(pk)\n                inplace_csr_matmul_diag(PTk, weights)\n")], "inverse of the root"),
 ("P23", "quiet", [(C, "                self.clustering[k] = SparseClustering(p1=self.p1, p2=None,\n                                  S=self.I_list[k],", "                covariance = self.I_list[k]\n                self.clustering[k] = SparseClustering(p1=self.p1, p2=None,\n                                  S=covariance,")], "search: named covariance"),
]
