"""independent bugs written from the properties' text (batch h): temporal_network.py"""
M = "temporal_network.py"
CASES = [
 # construction and Laplacians (P24, P17)
 ("P24", M, "                self.label_to_node_dict = {l : n for n, l in enumerate(sorted(all_nodes))}\n                self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}\n                source_nodes =", "                self.label_to_node_dict = {l : n for n, l in enumerate(sorted(set(source_nodes)))}\n                self.label_to_node_dict.update({l : n for n, l in enumerate(sorted(set(target_nodes)))})\n                self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}\n                source_nodes ="),
 ("P24", M, "                target_nodes = [self.label_to_node_dict[n] for n in target_nodes]\n", "                target_nodes = [self.label_to_node_dict.get(n, 0) for n in target_nodes]\n"),  # equivalent
 ("P24", M, "                for nodes in (self._SOURCES, self._TARGETS):\n", "                for nodes in (self._SOURCES,):\n"),
 ("P24", M, "            self.events_table.sort_values(by=[\"starting_times\", \"ending_times\"],\n                                          inplace=True)\n", "            self.events_table.drop_duplicates(subset=[\"source_nodes\", \"starting_times\"], inplace=True)\n            self.events_table.sort_values(by=[\"starting_times\", \"ending_times\"],\n                                          inplace=True)\n"),
 ("P24", M, "        self.end_time = self.events_table.ending_times.max()\n\n        self.events_table[\"durations\"]", "        self.end_time = self.events_table.starting_times.max()\n\n        self.events_table[\"durations\"]"),
 ("P24", M, "        self.end_time = self.events_table.ending_times.max()\n\n        self.events_table[\"durations\"]", "        self.end_time = self.events_table.ending_times.iloc[-1]\n\n        self.events_table[\"durations\"]"),
 ("P24", M, "        self.start_time = self.events_table.starting_times.min()\n", "        self.start_time = self.events_table.starting_times.iloc[0]\n"),
 ("P24", M, "        self.num_nodes = self.node_array.shape[0]\n", "        self.num_nodes = int(self.events_table[\"source_nodes\"].max()) + 1\n"),
 ("P24", M, "        mask = np.logical_and(self.events_table.starting_times < end_time,\n", "        mask = np.logical_and(self.events_table.starting_times >= start_time,\n"),
 ("P24", M, "            data.append(min(ev.ending_times, end_time) - max(ev.starting_times, start_time))\n", "            data.append(min(ev.ending_times, end_time) - ev.starting_times)\n"),
 ("P24", M, "        return A + A.T\n", "        return (A + A.T).sign()\n"),
 ("P24", M, "        return A + A.T\n", "        return A.maximum(A.T)\n"),
 ("P17+P24", M, "        if t not in self.times:\n", "        if t < self.times[0]:\n"),
 ("P17", M, "            if t <= self.times[0]:\n                t = self.times[0]\n            else:\n                t = self.times[self.times <= t].max()\n", "            if t <= self.times[0]:\n                t = self.times[0]\n            else:\n                t = self.times[np.argmin(np.abs(self.times - t))]\n"),
 ("P17", M, "                t = self.times[self.times <= t].max()\n", "                t = self.times[self.times <= t].min()\n"),
 ("P24+P17", M, "                        (self.events_table.ending_times > \\\n                                                t_km1)\n", "                        (self.events_table.ending_times > \\\n                                                self._t_start_laplacians)\n"),
 ("P24+P17", M, "            t_km1 = self.times[self._k_start_laplacians-1]\n", "            t_km1 = self._t_start_laplacians\n"),
 ("P24+P17", M, "        if self._k_start_laplacians > 0:\n", "        if t_start is not None and t_start > self.times[1]:\n"),
 ("P24", M, "                elif A[event.source_nodes, event.target_nodes] > 0:\n                    A[event.source_nodes, event.target_nodes] = 0\n                    A[event.target_nodes, event.source_nodes] = 0\n                    degrees[event.source_nodes] -= 1\n                    degrees[event.target_nodes] -= 1\n", "                elif A[event.source_nodes, event.target_nodes] > 0:\n                    A[event.source_nodes, event.target_nodes] = 0\n                    A[event.target_nodes, event.source_nodes] = 0\n                    degrees[event.source_nodes] -= 1\n                    degrees[event.target_nodes] = max(degrees[event.target_nodes] - 1, 1)\n"),
 ("P24", M, "                if degrees[event.target_nodes] == 0:\n                    S.data[event.target_nodes] = 1\n                    Dm1.data[event.target_nodes] = 1\n                else:\n                    S.data[event.target_nodes] = 0\n                    Dm1.data[event.target_nodes] = 1/degrees[event.target_nodes]\n\n            # Laplacian", "                if degrees[event.target_nodes] == 0:\n                    S.data[event.target_nodes] = 1\n                    Dm1.data[event.target_nodes] = 1\n                elif is_start:\n                    S.data[event.target_nodes] = 0\n                    Dm1.data[event.target_nodes] = 1/degrees[event.target_nodes]\n\n            # Laplacian"),
 ("P24", M, "            self.laplacians.append(I - Dm1 @ (Acsc + S))\n", "            self.laplacians.append(I - (Acsc + S) @ Dm1)\n", 0),
 ("P24", M, "            self.laplacians.append(I - Dm1 @ (Acsc + S))\n", "            self.laplacians.append(I - Dm1 @ (Acsc + S))\n            if not len(is_starts):\n                break\n", 0),  # equivalent
 ("P24", M, "                self.adjacencies.append(A.copy())\n", "                self.adjacencies.append(A)\n", 0),
 ("P24", M, "                self.adjacencies.append(A.copy())\n", "                self.adjacencies.append(Acsc + S)\n", 0),
 ("P17+P24", M, "                  (self.time_grid.index.get_level_values(\"times\") < \\\n                       self._t_stop_laplacians)]\n", "                  (self.time_grid.index.get_level_values(\"times\") <= \\\n                       self._t_stop_laplacians)]\n", 0),
 ("P17", M, "            self._t_stop_laplacians = self.times[-1]\n            self._k_stop_laplacians = len(self.times)-1\n", "            self._t_stop_laplacians = self.times[-1]\n            self._k_stop_laplacians = len(self.times)\n", 0),
 # merging
 ("P24", M, "                    if ev2.starting_times < ev1.ending_times:\n", "                    if ev2.starting_times < ev1.ending_times and ev2.source_nodes == ev1.source_nodes:\n"),
 ("P24", M, "                evs = self.events_table.loc[np.logical_or(mask_12, mask_21)].\\\n                                sort_values(by=[\"starting_times\", \"ending_times\"])\n", "                evs = self.events_table.loc[np.logical_or(mask_12, mask_21)].\\\n                                sort_values(by=[\"ending_times\", \"starting_times\"])\n"),
 ("P24", M, "                    else:\n                        ev1 = ev2\n", "                    elif ev2.starting_times > ev1.ending_times:\n                        ev1 = ev2\n"),
 ("P24", M, "        self.events_table = self.events_table.loc[events_to_keep]\n", "        self.events_table = self.events_table.loc[events_to_keep].drop_duplicates(subset=[\"source_nodes\", \"target_nodes\", \"starting_times\"])\n"), # after merging none share the start: equivalent
 ("P24", M, "            self.events_table[\"durations\"] = self.events_table.ending_times - \\\n                                             self.events_table.starting_times\n", ""),
 # instantaneous
 ("P24", M, "            end_times_map[utimes[-1]] = utimes[-1]+1\n", "            end_times_map[utimes[-1]] = utimes[-1]\n"),
 ("P24", M, "            utimes = np.unique(starting_times)\n", "            utimes = np.array(starting_times)\n"),
 ("P24", M, "            Dm1.data.fill(1.0)\n            degrees.fill(0.0)\n", "            degrees.fill(0.0)\n"),
 ("P24", M, "            S.data.fill(1.0)\n", "            S.data.fill(0.0)\n"),
 # inter transition
 ("P17", M, "                    tau_k = self.times[self._k_start_laplacians+k+1] - tk\n", "                    tau_k = self.times[k+1] - self.times[k]\n", 0),
 ("P17", M, "                    tau_k = self.times[self._k_start_laplacians+k+1] - tk\n", "                    tau_k = max(self.times[self._k_start_laplacians+k+1] - tk, 1.0)\n", 1),
 ("P17", M, "                elif self.laplacians[k].getnnz() == 0:\n", "                elif self.laplacians[k].getnnz() <= 2:\n"),
 ("P17", M, "                    self.inter_T[lamda].append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k].toarray())))\n", "                    self.inter_T[lamda].append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k].T.toarray())))\n"),
 ("P17", M, "                    self.inter_T[lamda].append(expm(-tau_k*lamda*self.laplacians[k]).tocsr())\n", "                    self.inter_T[lamda].append(expm(-tau_k/lamda*self.laplacians[k]).tocsr())\n"),
 ("P17", M, "                    self.inter_T[lamda].append(sparse_lapl_expm(self.laplacians[k],\n                                                                       tau_k*lamda,\n", "                    self.inter_T[lamda].append(sparse_lapl_expm(self.laplacians[k],\n                                                                       lamda,\n"),
 ("P17", M, "            lamda = 1/np.median(np.diff(self.times))\n", "            lamda = 1/np.median(np.diff(self.times[self._k_start_laplacians:self._k_stop_laplacians]))\n", 0),
 ("P17", M, "        if lamda not in self.inter_T.keys():\n", "        if not any(np.isclose(lamda, l) for l in self.inter_T.keys()):\n"),
 ("P17", M, "                                             Pi=self._stationary_trans[k],\n                                             t_s=t_s,\n                                             nz_rowcols=nz_rowcols))\n", "                                             Pi=self._stationary_trans[0],\n                                             t_s=t_s,\n                                             nz_rowcols=nz_rowcols))\n"),
 ("P17", M, "                                                   Pi=self._stationary_trans[k],\n                                                   t_s=t_s))\n", "                                                   Pi=self._stationary_trans[k]))\n"),
 ("P17", M, "                    nonzerosum_rowcols = ~np.logical_and(Lcsr.getnnz(1)==0,\n                                                         Lcsr.getnnz(0)==0)\n", "                    nonzerosum_rowcols = np.logical_and(Lcsr.getnnz(1)!=0,\n                                                         Lcsr.getnnz(0)!=0)\n"), # Laplacian has diagonal: equivalent
 # order of time
 ("P16", M, "                k_range = reversed(range(k_init))\n", "                k_range = range(k_init)\n", 0),
 ("P16", M, "                k_range = reversed(range(k_init))\n", "                k_range = reversed(range(1, k_init))\n", 1),
 ("P16", M, "                    self.T[lamda] = self.T[lamda] @ Tk\n", "                    self.T[lamda] = Tk @ self.T[lamda]\n"),
 ("P16", M, "                    self.T[lamda].append(self.T[lamda][-1] @ Tk)\n", "                    self.T[lamda].append(self.T[lamda][0] @ Tk)\n"),
 ("P16", M, "                    self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][-1] @ \\\n                                      self.inter_T_lin[lamda][t_s][k])\n", "                    self.T_lin[lamda][t_s].append(self.inter_T_lin[lamda][t_s][k] @ \\\n                                      self.T_lin[lamda][t_s][-1])\n"),
 ("P16", M, "                k_range = range(1,len(self.inter_T_lin[lamda][t_s]))\n", "                k_range = range(1,len(self.laplacians)-1)\n"),
 ("P16+P30", M, "                if tol is not None:\n                    Tk = Tk.copy()\n                    set_to_zeroes(Tk,tol)\n                    inplace_csr_row_normalize(Tk)\n", "                if tol is not None:\n                    Tk = Tk.copy()\n                    set_to_zeroes(Tk,tol)\n"),
 # save / load
 ("P04", M, "        for k,val in graph_dict.items():\n            if k in matrices_list:\n                setattr(net, k, val)\n            if k in attributes_list:\n                setattr(net, k, val)\n", "        for k,val in graph_dict.items():\n            if k in matrices_list and k in attributes_list:\n                setattr(net, k, val)\n"),
 ("P04", M, "            if k in matrices_list:\n                setattr(net, k, val)\n", "            if k in matrices_list and val:\n                setattr(net, k, val)\n"),
 ("P04", M, "        for mat in matrices_list:\n            if hasattr(self, mat):\n                save_dict[mat] = getattr(self,mat)\n", "        for mat in matrices_list:\n            if hasattr(self, mat) and len(getattr(self, mat)) > 0:\n                save_dict[mat] = getattr(self,mat)\n"),
 ("P04", M, "            if hasattr(self, attr):\n                save_dict[attr] = getattr(self,attr)\n", "            if getattr(self, attr, None):\n                save_dict[attr] = getattr(self,attr)\n"),
 ("P04", M, "        net = cls(events_table=events_table,\n                           relabel_nodes=False,\n", "        net = cls(events_table=events_table.reset_index(drop=True),\n                           relabel_nodes=False,\n"),
 ("P04", M, "        net = cls(events_table=events_table,\n                           relabel_nodes=False,\n", "        net = cls(events_table=events_table,\n                           relabel_nodes=True,\n"),
 ("P05", M, "                    for interT in self.inter_T[lamda]:\n                        if round_zeros:\n", "                    for interT in self.inter_T[lamda][:self._k_stop_laplacians]:\n                        if round_zeros:\n"),
 ("P05", M, "                        save_dict[\"inter_T\"][lamda][\"trans_mat0\"] = self.inter_T[lamda][0].copy()\n", "                        save_dict[\"inter_T\"][lamda][\"trans_mat0\"] = self.inter_T[lamda][-1].copy()\n"),
 ("P05", M, "                                self._k_start_laplacians:self._k_stop_laplacians+1]\n            save_dict[\"num_nodes\"]", "                                self._k_start_laplacians:self._k_stop_laplacians]\n            save_dict[\"num_nodes\"]", 0),
 ("P05", M, "                self.delta_inter_T[lamda] = [self.inter_T[lamda][k+1] - \\\n                                                  self.inter_T[lamda][k] for k in \\\n                                                  range(len(self.inter_T[lamda])-1)]\n", "                self.delta_inter_T[lamda] = [self.inter_T[lamda][k+1] - \\\n                                                  self.inter_T[lamda][0] for k in \\\n                                                  range(len(self.inter_T[lamda])-1)]\n"),
 ("P05+P30", M, "                        set_to_zeroes(M, tol=tol, use_absolute_value=True)\n            else:\n                print(\"PID \", os.getpid(), \" : \",\n                      f\"delta_inter_T has", "                        set_to_zeroes(M, tol=tol)\n            else:\n                print(\"PID \", os.getpid(), \" : \",\n                      f\"delta_inter_T has"),
 ("P05", M, "                for t_s in self.inter_T_lin[lamda].keys():\n                    self.delta", "                for t_s in list(self.inter_T_lin[lamda].keys())[:1]:\n                    self.delta"),
]
