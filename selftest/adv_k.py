"""independent bugs written from the properties' text (batch k): temporal_network.py"""
N = "temporal_network.py"
CASES = [
 ("P24", N, "            data.append(min(ev.ending_times, end_time) - max(ev.starting_times, start_time))\n", "            data.append(min(ev.ending_times, end_time) - ev.starting_times if ev.starting_times > start_time else end_time - start_time)\n"),
 ("P24", N, "        return A + A.T\n", "        return A.maximum(A.T)\n"),
 ("P24", N, "            start_time = self.start_time\n        if end_time is None", "            start_time = self.events_table.starting_times.iloc[0]\n        if end_time is None"),
 ("P24", N, "                elif A[event.source_nodes, event.target_nodes] > 0:\n", "                elif A[event.target_nodes, event.source_nodes] > 0 and degrees[event.source_nodes] > 1:\n"),
 # 4
 ("P24", N, "            Dm1.data.fill(1.0)\n            degrees.fill(0.0)\n", "            Dm1.data.fill(1.0)\n            degrees[events_k.source_nodes] = 0.0\n"),
 ("P24", N, "            A.clear()\n            S.data.fill(1.0)\n", "            A = lil_matrix(A.shape) if len(meet_id) > 1 else A*0\n            S.data.fill(1.0)\n"),
 ("P24", N, "            self.laplacians.append(I - Dm1 @ (Acsc + S))\n            if save_adjacencies:\n                self.adjacencies.append(A.copy())\n\n            A.clear()", "            self.laplacians.append(I - (Acsc + S) @ Dm1)\n            if save_adjacencies:\n                self.adjacencies.append(A.copy())\n\n            A.clear()"),
 ("P24+P06", N, "                self.adjacencies.append(A.copy())\n", "                self.adjacencies.append(A)\n"),
 # 8
 ("P17", N, "                    tau_k = self.times[self._k_start_laplacians+k+1] - tk\n                if use_sparse_stoch:\n                    self.inter_T[lamda].append", "                    tau_k = self.times[self._k_start_laplacians+k+1] - self.times[self._k_start_laplacians + max(k, 0)]\n                    if k > 0 and tau_k == 0:\n                        tau_k = 1.0\n                if use_sparse_stoch:\n                    self.inter_T[lamda].append"),
 ("P17", N, "                elif self.laplacians[k].getnnz() == 0:\n", "                elif self.laplacians[k].getnnz() <= 2:\n"),
 ("P17", N, "            lamda = 1/np.median(np.diff(self.times))\n", "            lamda = 1/np.median(np.diff(self.times[self._k_start_laplacians:self._k_stop_laplacians+1]))\n"),
 ("P17", N, "            lamda = 1/np.median(np.diff(self.times))\n", "            lamda = 1/np.mean(np.diff(self.times))\n"),
 # 12
 ("P17", N, "                    self.inter_T[lamda].append(expm(-tau_k*lamda*self.laplacians[k]).tocsr())\n", "                    self.inter_T[lamda].append(expm(-tau_k*lamda*self.laplacians[k].T).T.tocsr() if k % 2 else expm(-tau_k*lamda*self.laplacians[k].T).tocsr())\n"),
 ("P17", N, "                    self.inter_T[lamda].append(expm(-tau_k*lamda*self.laplacians[k]).tocsr())\n", "                    self.inter_T[lamda].append(expm(-tau_k*self.laplacians[k]).tocsr()**lamda)\n"),
 ("P17", N, "            if len(self.inter_T[lamda]) == 0:\n", "            if len(self.inter_T[lamda]) <= 1:\n"),
 ("P17", N, "            self._k_stop_laplacians = len(self.times)-1\n", "            self._k_stop_laplacians = len(self.times)\n"),
 # 16
 ("P17", N, "            if not hasattr(self, \"inter_T\"):\n", "            if not hasattr(self, \"inter_T\"):\n"),
 ("P17", N, "        elif t <= 1:\n        return", "        elif t <= 1:\n        return"),
 ("P17", N, "    elif t <= 1:\n        return (1-t)*I + t*T.tocsr()\n", "    elif t < t_s/10:\n        return (1-t)*I + t*T.tocsr()\n"),
 ("P17", N, "            return (1/(1-t_s))*(T*(t-t_s)+Pi*(1-t))\n", "            return (1/(t_s-1))*(T*(t-t_s)+Pi*(1-t))\n"),
 # 20
 ("P17", N, "        degs = np.diff(T.indptr)\n", "        degs = np.asarray(T.sum(0)).squeeze()\n"),
 ("P17", N, "        cmp_degs = degs[cmp_to_indices[cmp]]\n", "        cmp_degs = np.sort(degs[cmp_to_indices[cmp]])\n"),
 ("P17", N, "    n_comp, comp_labels = connected_components(T,directed=False)\n\n    comp_sizes = np.bincount(comp_labels)\n", "    n_comp, comp_labels = connected_components(T,directed=True, connection=\"strong\")\n\n    comp_sizes = np.bincount(comp_labels)\n"),
 ("P16", N, "                    self.T[lamda].append(self.T[lamda][-1] @ Tk)\n", "                    self.T[lamda].append(self.T[lamda][-1] @ Tk if Tk.nnz > self.num_nodes else self.T[lamda][-1].copy())\n"),
 # 24
 ("P16", N, "                    self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][-1] @ \\\n                                      self.inter_T_lin[lamda][t_s][k])\n", "                    self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][k-1] @ \\\n                                      self.inter_T_lin[lamda][t_s][k])\n"),
 ("P16", N, "                k_init = len(self.inter_T_lin[lamda][t_s])-1\n                k_range = reversed(range(k_init))\n", "                k_init = len(self.inter_T_lin[lamda][t_s])-1\n                k_range = reversed(range(1, k_init))\n"),
 ("P16", N, "                    inplace_csr_row_normalize(self.T_lin[lamda][t_s][-1])\n", "                    if not reverse_time:\n                        inplace_csr_row_normalize(self.T_lin[lamda][t_s][-1])\n"),
 ("P16", N, "            if lamda not in self.T_lin.keys():\n                self.T_lin[lamda] = dict()\n                if save_intermediate:\n                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]\n", "            if lamda not in self.T_lin.keys():\n                self.T_lin[lamda] = dict()\n                if save_intermediate:\n                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][0]]\n"),
 # 28
 ("P24", N, "        self.times = self.time_grid.index.levels[0]\n", "        self.times = self.time_grid.index.levels[0].unique().round(9)\n"),
 ("P24", N, "        self.time_grid.loc[0:self.events_table.shape[0]-1,\"is_start\"] = True\n", "        self.time_grid.loc[0:self.events_table.shape[0],\"is_start\"] = True\n"),
 ("P24", N, "                     self.events_table.reset_index()[[\"starting_times\",\"index\"]]\n", "                     self.events_table.reset_index()[[\"starting_times\",\"source_nodes\"]]\n"),
 ("P05", N, "                       \"_t_stop_laplacians\" : load_dict[\"_t_stop_laplacians\"],\n                       \"num_nodes\"", "                       \"_t_stop_laplacians\" : load_dict.get(\"_t_stop\", load_dict[\"_t_start_laplacians\"]),\n                       \"num_nodes\"", 1),
 # 32
 ("P05", N, "                for lamda in load_dict[\"T\"].keys():\n                    return_dict[\"T\"][lamda] = load_dict[\"T\"][lamda]\n", "                for lamda in sorted(load_dict[\"T\"].keys())[:1]:\n                    return_dict[\"T\"][lamda] = load_dict[\"T\"][lamda]\n"),
 ("P17", N, "            self._stationary_trans = []\n", "            self._stationary_trans = []\n"),
 ("P17", N, "        for k in range(len(self.laplacians)):\n", "        for k in range(1, len(self.laplacians)):\n"),
 ("P17", N, "                    nonzerosum_rowcols = ~np.logical_and(Lcsr.getnnz(1)==0,\n                                                         Lcsr.getnnz(0)==0)\n", "                    nonzerosum_rowcols = ~np.logical_or(Lcsr.diagonal()==0,\n                                                         Lcsr.getnnz(0)==0)\n"),
 # 36
 ("P17", N, "                                             tau_k*lamda,\n                                             Pi=self._stationary_trans[k],\n                                             t_s=t_s,\n                                             nz_rowcols=nz_rowcols))\n", "                                             tau_k*lamda,\n                                             Pi=self._stationary_trans[k],\n                                             nz_rowcols=nz_rowcols))\n"),
 ("P17", N, "                    tau_k = 1.0\n", "                    tau_k = 1/lamda\n"),
 ("P17", N, "                                                  fix_tau_k=True,\n                                                  use_sparse_stoch=use_sparse_stoch,\n", "                                                  fix_tau_k=not use_sparse_stoch,\n                                                  use_sparse_stoch=use_sparse_stoch,\n"),
 ("P29", N, "    cmp_to_indices = {cmp : (comp_labels == cmp).nonzero()[0] for \\\n                          cmp in range(n_comp)}\n", "    cmp_to_indices = {cmp : np.sort((comp_labels == cmp).nonzero()[0])[::-1] for \\\n                          cmp in range(n_comp)}\n"),
]
