N = "network_clustering.py"
P = "parallel_clustering.py"
CASES = [
    # P12
    ("P12", N, "            self.node_to_cluster_dict[node] = c_f\n", "            if len(self.cluster_list[c_i]) > 1:\n                self.node_to_cluster_dict[node] = c_f\n"),
    ("P12", N, "            self.cluster_list[c_i].remove(node)\n", "            self.cluster_list[c_f].discard(node)\n"),
    ("P12", N, "self.cluster_list = [c for c in self.cluster_list if len(c) > 0 ]", "self.cluster_list = [c for c in self.cluster_list if len(c) > 1 ]"),
    ("P12", N, "        self.cluster_list = [c for c in self.cluster_list if len(c) > 0 ]\n\n        self.node_to_cluster_dict = {}\n", "        if all(len(c) > 0 for c in self.cluster_list[:-1]):\n            self.cluster_list = [c for c in self.cluster_list if len(c) > 0]\n            return\n        self.cluster_list = [c for c in self.cluster_list if len(c) > 0 ]\n\n        self.node_to_cluster_dict = {}\n"),
    ("P12", N, "range(max(node_to_cluster_dict.values()) + 1)]\n            for node, clust in node_to", "range(len(set(node_to_cluster_dict.values())))]\n            for node, clust in node_to"),
    ("P12+P06", N, "self.cluster_list = [set(c) for c in cluster_list]", "self.cluster_list = list(cluster_list)"),
    ("P12", N, "self.cluster_list = [set([n]) for n in range(self.num_nodes)]", "self.cluster_list = [set([n]) for n in range(self.num_nodes-1, -1, -1)]"),
    ("P12", N, "                if i != j:\n                    inter", "                if i < j - 1:\n                    inter"),
    ("P12", N, "        if total_len != self.num_nodes:", "        if total_len < self.num_nodes:"),
    ("P12", N, "return len([c for c in self.cluster_list if len(c)>0])", "return len([c for c in self.cluster_list if len(c)>1])"),
    ("P12", N, "                Hindptr[i+1] = Hindptr[i] + nc\n", "                Hindptr[i+1] = Hindptr[i] + max(nc, 1)\n"),
    ("P12", N, "                H[list(c),i] = 1\n", "                H[i,list(c)] = 1\n"),
    ("P12", N, "            for i,c in enumerate(self.cluster_list):\n                H[list(c),i] = 1\n", "            for i,c in enumerate(self.cluster_list[1:]):\n                H[list(c),i] = 1\n"),
    # P21
    ("P21", N, "            p2 = p1 @ self.T\n", "            p2 = p1\n"),
    ("P21", N, "            p2 = p1 @ self.T\n", "            p2 = self.T @ p1\n"),
    ("P21", N, "            p2 = p1 @ self.T\n", "            p2 = p1\n", 1),
    ("P21", N, "p1 = np.ones(self.num_nodes)/self.num_nodes", "p1 = np.ones(self.num_nodes)/(self.num_nodes - 1)"),
    ("P21", N, "p1 = np.ones(self.num_nodes)/self.num_nodes", "p1 = np.asarray(self.T.sum(0)).squeeze()/self.num_nodes", 1),
    ("P21", N, "        self.p1 = p1\n        self.p2 = p2\n", "        self.p1 = p2\n        self.p2 = p1\n"),
    ("P21", N, "        self.p1 = p1\n        self.p2 = p2\n", "        self.p1 = p1/p1.sum()\n        self.p2 = p2\n", 1),
    ("P21", N, "S = np.diag(self.p1) @ self.T - np.outer(self.p1,self.p2)", "S = self.T @ np.diag(self.p1) - np.outer(self.p1,self.p2)"),
    ("P21", N, "S = np.diag(self.p1) @ self.T - np.outer(self.p1,self.p2)", "S = np.diag(self.p1) @ self.T - np.outer(self.p2,self.p1)"),
    ("P21", N, "S[np.where(np.abs(S)<S_threshold)] = 0\n\n        return S", "S[np.where(S<S_threshold)] = 0\n\n        return S"),
    ("P21", N, "self._S[np.where(np.abs(S)<S_threshold)] = 0", "self._S[np.where(S<S_threshold)] = 0"),
    ("P21", N, "        # renormalize T\n        T = T/T.sum(axis=1)[:, np.newaxis]\n        #also normalize p1 and p2 for rounding errors\n        p1 = p1/p1.sum()\n        p2 = p2/p2.sum()\n\n        return T, p1, p2, S\n\n    def _save_progress(self):\n        if not hasattr(self,\"partition", "        # renormalize T\n        T = T/T.sum(axis=0)[np.newaxis, :]\n        #also normalize p1 and p2 for rounding errors\n        p1 = p1/p1.sum()\n        p2 = p2/p2.sum()\n\n        return T, p1, p2, S\n\n    def _save_progress(self):\n        if not hasattr(self,\"partition"),
    ("P21", N, "                idx = np.ix_(cluster_to_node_list[s], cluster_to_node_list[s])\n                R[s] = self._S[idx].sum()", "                idx = (cluster_to_node_list[s], cluster_to_node_list[s])\n                R[s] = self._S[idx].sum()"),
    ("P21", N, "        return R.sum()", "        return R.sum()/R.size", 0),
    ("P21", N, "        return R.sum()", "        return np.abs(R).sum()", 1),
    ("P21", N, "                R[s] = self._S.get_submat_sum(cluster_to_node_list[s],\n                                              cluster_to_node_list[s])", "                R[s] = self._S.get_submat_sum(cluster_to_node_list[0],\n                                              cluster_to_node_list[s])"),
    ("P21", N, "            if len(partition.cluster_list[s]) > 0:\n                idx", "            if len(partition.cluster_list[s]) > 1:\n                idx"),
    ("P21", N, "            if len(partition.cluster_list[s]) > 0:\n                # idx", "            if len(partition.cluster_list[s]) > 1:\n                # idx"),
    ("P21", N, "                p2[t] = self.p2[t_cluster_to_node_list[t]].sum()", "                p2[t] = self.p1[t_cluster_to_node_list[t]].sum()", 1),
    ("P21", N, "                S[s,t] = self._S[s_cluster", "                S[t,s] = self._S[s_cluster", 1),
    ("P21", N, "                T[s,t] = self.T[s_cluster", "                T[s,t] = self._S[s_cluster", 1),
    ("P21+P22", N, "        if partition.get_num_clusters() == self.num_nodes:", "        if partition.get_num_clusters() >= self.num_nodes - 1:"),
    ("P21", N, "        return SparseAutocovMat.from_T(self.T,\n                                         self.p1,\n                                         self.p2)", "        return SparseAutocovMat.from_T(self.T,\n                                         self.p1,\n                                         self.p1)"),
    ("P21", N, "        return SparseAutocovMat.from_T(self.T,\n", "        return SparseAutocovMat.from_T_forward(self.T,\n"),
    ("P22+P21", N, "        return np.abs(self._S).max()< thresh/(self.num_nodes**2)", "        return self._S.max()< thresh/(self.num_nodes**2)"),
    # P13 neighbours
    ("P13", N, "self._out_neighs.append(np.nonzero(self.T[node,:] > 0)[0].tolist())", "self._out_neighs.append(np.nonzero(self.T[node,:] > 1e-3)[0].tolist())"),
    ("P13", N, "self._in_neighs.append(np.nonzero(self.T[:,node] > 0)[0].tolist())", "self._in_neighs.append(np.nonzero(self.T[node,:] > 0)[0].tolist())"),
    ("P13", N, "self._neighs.append(list(set(self._out_neighs[node] + self._in_neighs[node])))", "self._neighs.append(list(set(self._out_neighs[node]) & set(self._in_neighs[node])))"),
    ("P13", N, "self._neighs.append(list(set(self._out_neighs[node] + self._in_neighs[node])))", "self._neighs.append(self._out_neighs[node])", 1),
    ("P13", N, "range(self._S.PT.indptr[node],self._S.PT.indptr[node+1])])", "range(self._S.PT.indptr[node],self._S.PT.indptr[node+1]-1)])"),
    ("P13", N, "[self._S.PTcsc.indices[i] for i in", "[self._S.PT.indices[i] for i in"),
    ("P13", N, "                        if delta_r >= delta_r_best:\n                            delta_r_best = delta_r\n                            c_f_best = c_f\n\n", "                        if delta_r >= 0:\n                            delta_r_best = delta_r\n                            c_f_best = c_f\n\n"),
    ("P13", N, "                delta_r_best = 0\n                c_f_best = c_i\n", "                delta_r_best = -delta_r_threshold\n                c_f_best = c_i\n", 1),
    ("P13", N, "                delta_r_best = 0\n                c_f_best = c_i\n", "                c_f_best = c_i\n", 1),
    ("P13", N, "                    moved_nodes.add(node)\n                    delta_r_loop += delta_r_best", "                    if node not in moved_nodes:\n                        delta_r_loop += delta_r_best\n                    moved_nodes.add(node)"),
    ("P13", N, "                    moved_nodes.add(node)\n                    delta_r_loop += delta_r_best", "                    moved_nodes.add(node)\n                    delta_r_loop += delta_r"),
    ("P13", N, "                    moved_nodes.add(node)\n                    delta_r_loop += delta_r_best", "                    moved_nodes.add(node)\n                    delta_r_loop = max(delta_r_loop, delta_r_best)"),
    ("P13", N, "            delta_r_tot += delta_r_loop\n", "            delta_r_tot = delta_r_loop\n", 1),
    ("P13+P14", N, "            delta_r_loop = 0\n            moved_nodes = set()", "            moved_nodes = set()"),
    ("P13", N, "                        delta_r = r_out + r_in", "                        delta_r = r_in - r_out"),
    ("P13", N, "                r_out = self._compute_delta_stab_moveout(node, c_i)\n", "                r_out = self._compute_delta_stab_moveout(node, c_i, self.partition) if n_loop == 1 else 0\n"),
    ("P13", N, "        comms = {self.partition.node_to_cluster_dict[neigh] for \\\n                                                neigh in self._neighs[node]}", "        comms = {self.partition.node_to_cluster_dict[neigh] for \\\n                                                neigh in self._neighs[node][:100]}"),
    ("P13", N, "        comms = {self.partition.node_to_cluster_dict[neigh] for \\\n                                                neigh in self._neighs[node]}", "        comms = {self.partition.node_to_cluster_dict[neigh] for \\\n                                                neigh in self._out_neighs[node]}"),
    ("P13+P22", N, "        self.partition = self.source_part\n        self.target_part = None\n\n    def compute_stability", "        self.partition = deepcopy(self.source_part)\n        self.target_part = None\n\n    def compute_stability"),
    ("P13+P09", N, "            node_ids = np.arange(self.num_nodes)\n            self._rnd_state.shuffle(node_ids)\n\n            for node in node_ids:\n                # test gain of stability if we move node to neighbours communities\n\n                # initial cluster of node\n                c_i = self._get_node_cluster(node)\n                if verbose", "            node_ids = self._rnd_state.randint(self.num_nodes, size=self.num_nodes)\n\n            for node in node_ids:\n                # test gain of stability if we move node to neighbours communities\n\n                # initial cluster of node\n                c_i = self._get_node_cluster(node)\n                if verbose"),
    ("P13", N, "            node_ids = np.arange(self.num_nodes)\n", "            node_ids = np.arange(1, self.num_nodes)\n", 1),
    # P20
    ("P20", N, "            delta_r1 = self._S[k,ix_cf].sum() \\\n                        + self._S[ix_cf,k].sum() \\\n                        + self._S[k,k]", "            delta_r1 = 2*self._S[k,ix_cf].sum() \\\n                        + self._S[k,k]"),
    ("P20", N, "                       + self._S[k,k]\n                   # we add", "                       - self._S[k,k]\n                   # we add"),
    ("P20", N, "            delta_r1 = sum_Sto(self._S, k, ix_cf)", "            delta_r1 = sum_Sto(self._S.T, ix_cf[0], ix_cf)"),
    ("P20", N, "            delta_r2 = sum_Sout(self._S, k, ix_ci)", "            delta_r2 = sum_Sout(self._S, k, [n for n in ix_ci if n != k])"),
    ("P20", N, "            delta_r1 = sum_Sto(self._S, k, ix_cf)", "            delta_r1 = sum_Sto(self._S, k, ix_cf) if len(ix_cf) else 0"),
    ("P20", N, "        return self._S._compute_delta_S_moveto(k, ix_cf)", "        return self._S._compute_delta_S_moveto(k, ix_cf) if len(ix_cf) else 0"),
    ("P20", N, "        return self._S._compute_delta_S_moveout(k, ix_ci)", "        return -self._S._compute_delta_S_moveto(k, ix_ci)"),
    # P14
    ("P14", N, "        while (delta_r_loop > delta_r_threshold) and (n_loop < n_sub_iter_max):", "        while (delta_r_loop > delta_r_threshold) and (n_loop <= n_sub_iter_max + 1):", 1),
    ("P14", N, "        while (delta_r_loop > delta_r_threshold) and (n_loop < n_sub_iter_max):", "        while (delta_r_loop > 10*delta_r_threshold) and (n_loop < n_sub_iter_max):", 1),
    ("P14", N, "            delta_r_tot += delta_r_loop\n            n_loop += 1\n\n        # remove empty clusters\n        self._remove_empty_clusters()\n\n        return delta_r_tot, n_loop\n\n    def _potential", "            delta_r_tot += delta_r_loop\n            if moved_nodes:\n                n_loop += 1\n\n        # remove empty clusters\n        self._remove_empty_clusters()\n\n        return delta_r_tot, n_loop\n\n    def _potential"),
    ("P14", N, "meta_clustering._louvain_move_nodes(delta_r_threshold,\n                                                n_sub_iter_max,", "meta_clustering._louvain_move_nodes(delta_r_threshold,\n                                                n_meta_iter_max,"),
    ("P14", N, "                   delta_r_meta_loop <= delta_r_threshold:\n", "                   delta_r_meta_loop <= 1e-6:\n"),
    ("P14", N, "(n_meta_loop > n_meta_iter_max)):", "(n_meta_loop > n_sub_iter_max)):"),
    ("P14", N, "            n_meta_loop += 1\n", "            n_meta_loop += 1 if not stop else 0\n            if n_meta_loop == 3 and delta_r_meta_loop < 1e-3:\n                break\n"),
    ("P14", N, "                                n_sub_iter_max=n_sub_iter_max,\n                                verbose=verbose,\n                                rnd_seed=rnd_seed,\n                                save_progress=save_progress)\n\n            self.partition", "                                verbose=verbose,\n                                rnd_seed=rnd_seed,\n                                save_progress=save_progress)\n\n            self.partition"),
    ("P14", N, "        n_loop = super().find_louvain_clustering(delta_r_threshold=delta_r_threshold,", "        n_loop = super().find_louvain_clustering(delta_r_threshold=np.finfo(float).eps,"),
    ("P14", N, "        return n_meta_loop\n", "        return n_meta_loop - 1\n"),
    ("P14", N, "        n_meta_loop = 0\n        stop", "        n_meta_loop = 1\n        stop"),
    # P22
    ("P22", N, "cluster_dict = deepcopy(self._get_cluster_list())", "cluster_dict = self._get_cluster_list()"),
    ("P22", N, "            if n_meta_loop == 1:\n", "            if n_meta_loop <= 2:\n"),
    ("P22", N, "                self._update_to_singletons()\n", "                pass\n"),
    ("P22", N, "                T, p1, p2, S = self._aggregate_clusters()\n", "                T, p2, p1, S = self._aggregate_clusters()\n"),
    ("P22", N, "meta_clustering = self.__class__(T=T, p1=p1, p2=p2, S=S,\n", "meta_clustering = self.__class__(T=T, p1=p1, p2=p1, S=S,\n"),
    ("P22+P21", N, "meta_clustering = self.__class__(T=T, p1=p1, p2=p2, S=S,\n", "meta_clustering = self.__class__(T=T, p1=p1, p2=p2,\n"),
    ("P22", N, "                T, p1, p2, S = self._aggregate_clusters()\n", "                T, p1, p2, S = meta_clustering._aggregate_clusters()\n"),
    ("P22", N, "                    meta_new_part.node_to_cluster_dict[meta_node]", "                    meta_new_part.node_to_cluster_dict[min(meta_node, meta_new_part.num_nodes-1)]"),
    ("P22", N, "        self.partition = self.source_part\n        self.target_part = None\n\n        if print", "        self.target_part = None\n\n        if print"),
    ("P22", N, "                                         S=self._S,\n                                         rnd_state=self._rnd_state,\n                                         **cluster_dict)", "                                         S=self._S,\n                                         rnd_state=self._rnd_state)"),
    ("P22", N, "                                         S=self._S,\n                                         rnd_state=self._rnd_state,\n                                         **cluster_dict)", "                                         rnd_state=self._rnd_state,\n                                         **cluster_dict)"),
    ("P22", N, "    def _update_to_fullpart(self):\n        self.source_part = Partition(num_nodes=self.num_nodes,\n                                     cluster_list=[set(range(self.num_nodes))])", "    def _update_to_fullpart(self):\n        self.source_part = Partition(num_nodes=self.num_nodes)"),
    # P09
    ("P09", N, "            self._rnd_state.seed(rnd_seed)\n", "            self._rnd_state = np.random.RandomState()\n"),
    ("P09", N, "        if rnd_seed is not None:\n            self._rnd_state.seed", "        if rnd_seed:\n            self._rnd_state.seed"),
    ("P09", N, "            self._rnd_state = np.random.RandomState(rnd_seed)\n", "            self._rnd_state = np.random.RandomState(rnd_seed or None)\n"),
    ("P09", N, "            self._rnd_state = rnd_state\n", "            self._rnd_state = deepcopy(rnd_state)\n"),
    ("P09", N, "                meta_clustering = self.__class__(T=T, p1=p1, p2=p2, S=S,\n                                             rnd_state=self._rnd_state)", "                meta_clustering = self.__class__(T=T, p1=p1, p2=p2, S=S,\n                                             rnd_seed=rnd_seed)"),
    ("P09", N, "                                 T=clustering.T,\n                                 rnd_seed=seed)", "                                 T=clustering.T,\n                                 rnd_state=clustering._rnd_state)"),
    ("P09+P22", N, "        return SparseClustering(p1=pi,p2=pi,T=T, rnd_seed=rnd_seed)", "        return SparseClustering(p1=pi,p2=pi,T=T)"),
    ("P09", N, "                                verbose=verbose,\n                                rnd_seed=rnd_seed,\n                                save_progress=save_progress)\n\n            self.partition", "                                verbose=verbose,\n                                rnd_seed=k,\n                                save_progress=save_progress)\n\n            self.partition"),
    ("P09", N, "            self._rnd_state.shuffle(node_ids)\n", "            np.random.shuffle(node_ids)\n", 1),
    # P23
    ("P23", N, "            dt_list *= -1\n", "            dt_list = dt_list[::-1]\n"),
    ("P23", N, "            dt_list *= -1\n", "            dt_list = np.diff(time_list[::-1])\n"),
    ("P23", N, "                PTk = Tk @ P(1/pk) @ Tk.T * dtk\n", "                PTk = Tk.T @ P(1/pk) @ Tk * dtk\n"),
    ("P23", N, "                PTk = Tk @ P(1/pk) @ Tk.T * dtk\n", "                PTk = Tk @ P(1/pk) @ Tk.T\n"),
    ("P23", N, "                inplace_csr_matmul_diag(PTk,np.sqrt(1/pk))", "                inplace_csr_matmul_diag(PTk,1/pk)"),
    ("P23", N, "                PTk.data *= dtk # operating", "                PTk.data *= abs(dtk)**0.5 # operating"),
    ("P23", N, "                PTk = Tk.copy().tocsr()\n", "                PTk = Tk.tocsr()\n"),
    ("P23", N, "            total_time += dtk\n", "            total_time = dtk\n"),
    ("P23", N, "            for _ in range(self._k_integral_grid.count(k+1)):", "            for _ in range(self._k_integral_grid.count(k)):"),
    ("P23", N, "            for _ in range(self._k_integral_grid.count(k+1)):", "            for _ in range(min(1, self._k_integral_grid.count(k+1))):"),
    ("P23", N, "                    inplace_diag_matmul_csr(IPT_copy, self.p1)\n", "                    inplace_diag_matmul_csr(IPT, self.p1)\n"),
    ("P23", N, "                    IPT_copy = IPT.copy()\n", "                    IPT_copy = IPT\n"),
    ("P23", N, "                    IPT_copy.data *= (1/total_time)", "                    IPT_copy.data *= (1/(time_list[k+1]-time_list[0]))"),
    ("P23", N, "                    IPT_copy.data *= (1/total_time)", "                    IPT_copy.data *= (1/(k+1))"),
    ("P23", N, "IPT_copy = IPT_copy + IPT_copy.T - diags(IPT_copy.diagonal())", "IPT_copy = IPT_copy + IPT_copy.T"),
    ("P23", N, "                    if USE_SPARSE_DOT_MKL:\n                        # this means", "                    if USE_SPARSE_DOT_MKL and self.is_sparse:\n                        # this means"),
    ("P23", N, "            self.I_list = [PT - np.outer(self.p1,self.p1) for PT in PT_list]", "            self.I_list = [PT - np.outer(self.p1,self.p1 @ self.T_list[-1]) for PT in PT_list]"),
    ("P23", N, "            if (self.p1 == self.p1[0]).all():", "            if (self.p1 > 0).all():"),
    ("P23", N, "            self.I_list = [SparseAutocovMat(PT, pp1, pp1, PT_symmetric=True) for PT in PT_list]", "            self.I_list = [SparseAutocovMat(PT, pp1, pp1, PT_symmetric=True) for PT in PT_list[::-1]]"),
    ("P23", N, "                                  S=self.I_list[k],\n                                  cluster_list=cluster_list,\n                                  node_to_cluster_dict=node_to_cluster_dict,\n                                  rnd_state=rnd_state, rnd_seed=rnd_seed)", "                                  S=self.I_list[-1],\n                                  cluster_list=cluster_list,\n                                  node_to_cluster_dict=node_to_cluster_dict,\n                                  rnd_state=rnd_state, rnd_seed=rnd_seed)"),
    ("P23", N, "                pk[np.where(pk == 0)] = 1\n\n                PTk = Tk @", "                PTk = Tk @"),
    ("P23", N, "                pk[np.where(pk == 0)] = 1\n\n                # we compute", "                pk[np.where(pk < 1e-4)] = 1\n\n                # we compute"),
    ("P23", N, "                pk = self.p1 @ Tk\n", "                pk = self.p1 @ T_list[k-1]\n"),
    ("P23", N, "                pk = self.p1 @ Tk\n", "                pk = Tk @ self.p1\n"),
    ("P23+P16", N, "                inplace_csr_row_normalize(T_list[-1])\n", "                inplace_csr_row_normalize(T_list[-1], self.p1)\n"),
    ("P23", N, "            IPT = IPT + PTk\n", "            IPT = PTk\n"),
    ("P23", N, "                set_to_zeroes(IPT, rtol, use_absolute_value=True)", "                set_to_zeroes(IPT, rtol, relative=False, use_absolute_value=True)"),
    ("P23+P16", N, "        self.time_list=np.array(time_list)\n", "        self.time_list=np.array(sorted(time_list))[:len(self.T_list)]\n"),
    ("P23", N, "T=self.T_list[self._k_integral_grid[k+1]-1],", "T=self.T_list[self._k_integral_grid[k]-1],"),
    ("P23", N, "                                  S=self.I_list[k],\n                                  cluster_list=cluster_list,\n                                  node_to_cluster_dict=node_to_cluster_dict,\n                                  rnd_state=rnd_state, rnd_seed=rnd_seed,\n                                  S_threshold=S_threshold)", "                                  S=self.I_list[k],\n                                  cluster_list=cluster_list,\n                                  rnd_state=rnd_state, rnd_seed=rnd_seed,\n                                  S_threshold=S_threshold)"),
    # P11
    ("P11", P, 'Sraw = RawArray("d", clustering._S.flat)', 'Sraw = RawArray("d", clustering._S.T.flat)'),
    ("P11", P, 'Sraw = RawArray("d", clustering._S.flat)', 'Sraw = RawArray("f", clustering._S.flat)'),
    ("P11", P, 'initargs=(Sraw, Traw, N, p1raw, p2raw),', 'initargs=(Traw, Sraw, N, p1raw, p2raw),'),
    ("P11", P, 'var_dict["S"] = np.frombuffer(Sraw, dtype=np.float64).reshape((N,N))', 'var_dict["S"] = np.frombuffer(Sraw, dtype=np.float64).reshape((N,N), order="F")'),
    ("P11", P, "                                 shape=(N,N))\n", "                                 )\n"),
    ("P11", P, 'PTindices = RawArray("l", clustering._S.PT.indices)', 'PTindices = RawArray("i", clustering._S.PT.indices)'),
    ("P11", P, "                            clustering._S.p1, clustering._S.p2,", "                            clustering._S.p2, clustering._S.p1,"),
    ("P11", P, "    S = SparseAutocovMat(PT, S_p1, S_p2, PT_symmetric=PT_symmetric)", "    S = SparseAutocovMat(PT, S_p1, S_p2, PT_symmetric=True)"),
    ("P11+P14", P, "    n_loops = clustering.find_louvain_clustering(n_meta_iter_max=n_meta_iter_max,\n                                                 n_sub_iter_max=n_sub_iter_max,", "    n_loops = clustering.find_louvain_clustering(n_meta_iter_max=n_sub_iter_max,\n                                                 n_sub_iter_max=n_meta_iter_max,"),
    ("P11", P, "    return (clustering.partition.cluster_list, clustering.compute_stability(), seed)", "    return (clustering.partition.cluster_list, n_loops, seed)", 1),
    ("P11", P, "    params = [(c1,c2, N, verbose) for c1, c2 in nvarinf_samples]", "    params = [(c1,c1, N, verbose) for c1, c2 in nvarinf_samples]"),
    ("P11", P, "    params = [(c1,c2, N, verbose) for c1, c2 in nvarinf_samples]", "    params = [(c1,c2, len(c1), verbose) for c1, c2 in nvarinf_samples]"),
    ("P11", P, "            nvarinf_sym_vals = list(pool.map(_compute_nvi_sample, params,", "            nvarinf_sym_vals = list(pool.imap_unordered(_compute_nvi_sample, params,"),
    ("P11", P, "                                                       replace=False)", "                                                       replace=True)"),
    ("P11", P, "    if num_varinf_samples is None or num_varinf_samples > max_num_varinf_samples:", "    if num_varinf_samples is None or num_varinf_samples < max_num_varinf_samples:"),
    ("P11+P09", P, "                                  S=var_dict[\"S\"],\n                                  rnd_seed=seed)", "                                  S=var_dict[\"S\"],\n                                  rnd_seed=os.getpid())"),
    ("P11", P, "    var_dict[\"T\"] = S.PT\n", "    var_dict[\"T\"] = S.PT.T.tocsr()\n"),
    ("P11", P, '    var_dict["p2"] = np.frombuffer(p2raw, dtype=np.float64)', '    var_dict["p2"] = np.frombuffer(p1raw, dtype=np.float64)', 1),
]
