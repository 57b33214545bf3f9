CASES = [
    ('P17+P24', 'temporal_network.py', '                t = self.times[self.times <= t].max()', '                t = self.times[self.times >= t].min()'),
    ('P17+P24', 'temporal_network.py', '            if t <= self.times[0]:\n                t = self.times[0]', '            if t <= self.times[0]:\n                t = self.times[1]'),
    ('P17+P24', 'temporal_network.py', '        k = int(np.where(self.times == t)[0][0])', '        k = int(np.searchsorted(self.times, t, side="right"))'),
    ('P17+P24', 'temporal_network.py', '            self._k_stop_laplacians = len(self.times)-1', '            self._k_stop_laplacians = len(self.times)-2'),
    ('P17+P24', 'temporal_network.py', '            self._k_stop_laplacians = len(self.times)-1', '            self._k_stop_laplacians = len(self.times)-2', 1),
    ('P17+P24', 'temporal_network.py', '        if t_start is None:\n            self._t_start', '        if not t_start:\n            self._t_start'),
    ('P17+P24', 'temporal_network.py', '        if t_stop is None:\n            self._t_stop', '        if not t_stop:\n            self._t_stop'),
    ('P17+P24', 'temporal_network.py', '                  (self.time_grid.index.get_level_values("times") >= \\\n', '                  (self.time_grid.index.get_level_values("times") > \\\n'),
    ('P17+P24', 'temporal_network.py', '                  (self.time_grid.index.get_level_values("times") < \\\n', '                  (self.time_grid.index.get_level_values("times") <= \\\n', 1),
    ('P24', 'temporal_network.py', 'np.lexsort((self.time_grid["id"], starts, self.time_grid["times"]))', 'np.lexsort((self.time_grid["id"], self.time_grid["times"]))'),
    ('P24', 'temporal_network.py', 'self.time_grid.loc[0:self.events_table.shape[0]-1,"is_start"] = True', 'self.time_grid.loc[0:self.events_table.shape[0],"is_start"] = True'),
    ('P24', 'temporal_network.py', 'self.events_table.reset_index()[["ending_times","index"]]', 'self.events_table.reset_index()[["starting_times","index"]]'),
    ('P24', 'temporal_network.py', '        if self._k_start_laplacians > 0:\n', '        if self._k_start_laplacians > 1:\n'),
    ('P24', 'temporal_network.py', '                        (self.events_table.ending_times > \\\n', '                        (self.events_table.ending_times >= \\\n'),
    ('P24', 'temporal_network.py', '            mask_ini = (self.events_table.starting_times <= \\\n', '            mask_ini = (self.events_table.starting_times < \\\n'),
    ('P24', 'temporal_network.py', '                        A[event.target_nodes, event.source_nodes] = 1\n\n                        degrees[event.source_nodes] += 1\n', '                        degrees[event.source_nodes] += 1\n', 1),
    ('P24', 'temporal_network.py', '                elif A[event.source_nodes, event.target_nodes] > 0:', '                elif A[event.source_nodes, event.target_nodes] > 0 and degrees[event.source_nodes] > 0 and degrees[event.target_nodes] > 1:'),
    ('P24', 'temporal_network.py', '                    degrees[event.source_nodes] -= 1\n                    degrees[event.target_nodes] -= 1', '                    degrees[event.source_nodes] -= 1\n                    degrees[event.source_nodes] -= 1'),
    ('P24', 'temporal_network.py', '                    if A[event.source_nodes, event.target_nodes] != 1:\n                        A[event.source_nodes, event.target_nodes] = 1\n                        A[event.target_nodes, event.source_nodes] = 1\n\n                        degrees', '                    if True:\n                        A[event.source_nodes, event.target_nodes] = 1\n                        A[event.target_nodes, event.source_nodes] = 1\n\n                        degrees'),
    ('P24', 'temporal_network.py', '            self.laplacians.append(I - Dm1 @ (Acsc + S))', '            self.laplacians.append(I - (Acsc + S) @ Dm1)'),
    ('P24', 'temporal_network.py', '            self.laplacians.append(I - Dm1 @ (Acsc + S))', '            self.laplacians.append(I - Dm1 @ Acsc)', 1),
    ('P24+P06', 'temporal_network.py', '                self.adjacencies.append(A.copy())', '                self.adjacencies.append(A)'),
    ('P24+P06', 'temporal_network.py', '                self.adjacencies.append(A.copy())', '                self.adjacencies.append(A)', 1),
    ('P24+P06', 'temporal_network.py', '        S = I.copy()', '        S = I'),
    ('P24+P06', 'temporal_network.py', '        Dm1 = I.copy()', '        Dm1 = I', 1),
    ('P24', 'temporal_network.py', '            S.data.fill(1.0)\n', '            S.data.fill(0.0)\n'),
    ('P24', 'temporal_network.py', '            degrees.fill(0.0)\n', '            \n'),
    ('P24', 'temporal_network.py', '            A.clear()\n', '            \n'),
    ('P24', 'temporal_network.py', '                        S.data[event.target_nodes] = 0\n                        Dm1.data[event.target_nodes]', '                        S.data[event.source_nodes] = 0\n                        Dm1.data[event.target_nodes]'),
    ('P24', 'temporal_network.py', '            end_times_map[utimes[-1]] = utimes[-1]+1', '            end_times_map[utimes[-1]] = utimes[-1]'),
    ('P24', 'temporal_network.py', '        self.events_table["durations"] = [1.0]*self.events_table.shape[0]\n', '        self.events_table["durations"] = self.events_table.ending_times - self.events_table.starting_times\n'),
    ('P24', 'temporal_network.py', 'enumerate(sorted(all_nodes))}', 'enumerate(sorted(all_nodes, key=str))}'),
    ('P24', 'temporal_network.py', 'enumerate(sorted(all_nodes))}', 'enumerate(all_nodes)}', 1),
    ('P24', 'temporal_network.py', '                all_nodes.update(target_nodes)\n', '\n'),
    ('P24', 'temporal_network.py', 'for nodes in (self._SOURCES, self._TARGETS):', 'for nodes in (self._SOURCES,):'),
    ('P24', 'temporal_network.py', '        self.end_time = self.events_table.ending_times.max()', '        self.end_time = self.events_table.ending_times.iloc[-1]'),
    ('P24', 'temporal_network.py', '        self.start_time = self.events_table.starting_times.min()', '        self.start_time = self.events_table.starting_times.iloc[0]'),
    ('P24', 'temporal_network.py', '            self.events_table["durations"] = self.events_table.ending_times - \\\n                                             self.events_table.starting_times\n', '            pass\n'),
    ('P24', 'temporal_network.py', '                    data[attr_name] = val_list\n', '                    data[attr_name] = sorted(val_list)\n'),
    ('P06', 'temporal_network.py', '                self.events_table = events_table.copy()', '                self.events_table = events_table'),
    ('P24', 'temporal_network.py', '                    if ev2.starting_times < ev1.ending_times:', '                    if ev2.starting_times <= ev1.starting_times:'),
    ('P24', 'temporal_network.py', 'ending_times=max(ev1.ending_times,\n                                                            ev2.ending_times)', 'ending_times=ev2.ending_times'),
    ('P24', 'temporal_network.py', '                        events_to_keep[ev2.Index] = False', '                        events_to_keep[ev1.Index] = False'),
    ('P24', 'temporal_network.py', 'evs = self.events_table.loc[np.logical_or(mask_12, mask_21)]', 'evs = self.events_table.loc[mask_12]'),
    ('P24', 'temporal_network.py', '                        self.events_table.loc[ev1.Index,"ending_times"] = ev1.ending_times', '                        self.events_table.loc[ev2.Index,"ending_times"] = ev1.ending_times'),
    ('P24', 'temporal_network.py', '        self.events_table = self.events_table.reset_index(drop=True)\n\n        events_to_keep', '        events_to_keep'),
    ('P17', 'temporal_network.py', '                    tau_k = 1.0\n                else:\n                    tau_k = self.times[self._k_start_laplacians+k+1] - tk\n\n                if use', '                    tau_k = 1.0\n                else:\n                    tau_k = self.times[k+1] - tk\n\n                if use'),
    ('P17', 'temporal_network.py', '                                                                       tau_k*lamda,\n', '                                                                       tau_k/lamda,\n'),
    ('P17', 'temporal_network.py', '                    self.inter_T[lamda].append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k].toarray())))', '                    self.inter_T[lamda].append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k-1].toarray())))'),
    ('P17', 'temporal_network.py', 'expm(-tau_k*lamda*self.laplacians[k]).tocsr()', 'expm(-lamda*self.laplacians[k]).tocsr()'),
    ('P17', 'temporal_network.py', '                elif self.laplacians[k].getnnz() == 0:', '                elif self.laplacians[k].diagonal().sum() < 1:'),
    ('P17', 'temporal_network.py', '            for k, tk in enumerate(self.times[self._k_start_laplacians:\n                                              self._k_stop_laplacians]):', '            for k, tk in enumerate(self.times[self._k_start_laplacians:\n                                              self._k_stop_laplacians-1]):'),
    ('P17', 'temporal_network.py', '            for k, tk in enumerate(self.times[self._k_start_laplacians:\n                                              self._k_stop_laplacians]):', '            for k, tk in enumerate(self.times[:self._k_stop_laplacians]):', 1),
    ('P17', 'temporal_network.py', 'Pi=self._stationary_trans[k],\n                                             t_s=t_s', 'Pi=self._stationary_trans[0],\n                                             t_s=t_s'),
    ('P17', 'temporal_network.py', '                                                   t_s=t_s))', '                                                   t_s=10))'),
    ('P17', 'temporal_network.py', '                                                  fix_tau_k=True,\n                                                  use_sparse_stoch=use_sparse_stoch,\n                                                  dense', '                                                  fix_tau_k=False,\n                                                  use_sparse_stoch=use_sparse_stoch,\n                                                  dense'),
    ('P17', 'temporal_network.py', '                                                  dense_expm=dense_expm)\n', '                                                  dense_expm=True)\n'),
    ('P17', 'temporal_network.py', '                                                t_s=t_s,\n                                                fix_tau_k=True', '                                                fix_tau_k=True'),
    ('P17', 'temporal_network.py', '            lamda = 1/np.median(np.diff(self.times))', '            lamda = np.median(np.diff(self.times))'),
    ('P17', 'temporal_network.py', '            self.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop)\n        if not hasattr(self, "inter_T")', '            self.compute_laplacian_matrices(t_start=t_start)\n        if not hasattr(self, "inter_T")'),
    ('P17', 'temporal_network.py', '            self.compute_laplacian_matrices(t_start=t_start,\n                                            t_stop=t_stop)\n        logger', '            self.compute_laplacian_matrices(t_start=t_stop,\n                                            t_stop=t_start)\n        logger'),
    ('P17', 'temporal_network.py', 'SparseStochMat.create_diag(size=self.num_nodes)', 'SparseStochMat.create_diag(size=self.num_nodes, diag_val=0)'),
    ('P17', 'temporal_network.py', '                  sparse_stationary_trans(I - self.laplacians[k]))', '                  sparse_stationary_trans(self.laplacians[k]))'),
    ('P16', 'temporal_network.py', '            k_range = reversed(range(k_init))', '            k_range = range(k_init)'),
    ('P16', 'temporal_network.py', '            k_range = range(1,len(self.inter_T[lamda]))', '            k_range = range(1,len(self.inter_T[lamda])-1)'),
    ('P16', 'temporal_network.py', 'self.T[lamda].append(self.T[lamda][-1] @ Tk)', 'self.T[lamda].append(Tk @ self.T[lamda][-1])'),
    ('P16', 'temporal_network.py', '                    self.T[lamda] = self.T[lamda] @ Tk', '                    self.T[lamda] = Tk @ self.T[lamda]'),
    ('P16', 'temporal_network.py', 'self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][-1] @ \\', 'self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][0] @ \\'),
    ('P16', 'temporal_network.py', '                    self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]\n\n            logger', '                    self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][0]\n\n            logger'),
    ('P16+P06', 'temporal_network.py', '            T_init = self.inter_T[lamda][k_init].copy()', '            T_init = self.inter_T[lamda][k_init]'),
    ('P06', 'temporal_network.py', '                    Tk = Tk.copy()\n', ''),
    ('P30+P16', 'temporal_network.py', '                    inplace_csr_row_normalize(Tk)\n', ''),
    ('P30+P16', 'temporal_network.py', '                    set_to_zeroes(Tk,tol)\n', '                    set_to_zeroes(Tk,tol, False)\n'),
    ('P30+P16+P17', 'temporal_network.py', '                        set_to_zeroes(self.T[lamda], tol)\n\n                    #normalize T to correct precision errors\n                    inplace_csr_row_normalize(self.T[lamda])', '                        set_to_zeroes(self.T[lamda], tol)'),
    ('P16+P17', 'temporal_network.py', '        if lamda not in self.T.keys():', '        if not self.T:'),
    ('P24', 'temporal_network.py', '            data.append(min(ev.ending_times, end_time) - max(ev.starting_times, start_time))', '            data.append(ev.ending_times - ev.starting_times)'),
    ('P24', 'temporal_network.py', '        return A + A.T', '        return A + A'),
]
