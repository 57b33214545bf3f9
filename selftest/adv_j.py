"""independent bugs written from the properties' text (batch j): network_clustering.py"""
N = "network_clustering.py"
CASES = [
 # 0 threshold applies in constructor of S given
 ("P21", N, "                self._S[np.where(np.abs(S)<S_threshold)] = 0\n", "                self._S[np.where(S<S_threshold)] = 0\n"),
 ("P06", N, "            self._S = S.copy()\n            if S_threshold is not None:\n", "            self._S = S if S_threshold is None else S.copy()\n            if S_threshold is not None:\n"),
 ("P09", N, "            self._rnd_state = np.random.RandomState(rnd_seed)\n        # list of out and in neighbors arrays, include potential self loops\n", "            self._rnd_state = np.random.RandomState(rnd_seed or None)\n        # list of out and in neighbors arrays, include potential self loops\n"),
 ("P09", N, "            node_ids = np.arange(self.num_nodes)\n            self._rnd_state.shuffle(node_ids)\n", "            node_ids = np.arange(self.num_nodes)\n            if n_loop > 1:\n                np.random.shuffle(node_ids)\n            else:\n                self._rnd_state.shuffle(node_ids)\n"),
 # 4
 ("P13", N, "            node_ids = np.arange(self.num_nodes)\n            self._rnd_state.shuffle(node_ids)\n", "            node_ids = np.arange(self.num_nodes) if n_loop == 1 else np.array(sorted(moved_nodes))\n            self._rnd_state.shuffle(node_ids)\n"),
 ("P13", N, "                        delta_r = r_out + r_in\n", "                        delta_r = r_out + r_in\n                        if abs(delta_r) < 1e-12:\n                            delta_r = 0\n", ),
 ("P13", N, "                        if delta_r >= delta_r_best:\n                            delta_r_best = delta_r\n                            c_f_best = c_f\n", "                        if delta_r >= delta_r_best:\n                            delta_r_best = delta_r\n                            c_f_best = c_f\n                            if delta_r > delta_r_threshold:\n                                break\n"),
 ("P13", N, "                    delta_r_loop += delta_r_best\n                    if verbose > 1:\n", "                    delta_r_loop = max(delta_r_loop, delta_r_best)\n                    if verbose > 1:\n"),
 # 8
 ("P13", N, "        comms.discard(self.partition.node_to_cluster_dict[node])\n", "        comms = {c for c in comms if len(self.partition.cluster_list[c]) <= len(self.partition.cluster_list[self.partition.node_to_cluster_dict[node]]) or True}\n        comms.discard(self.partition.node_to_cluster_dict[node])\n"),
 ("P13", N, "        comms = {self.partition.node_to_cluster_dict[neigh] for \\\n                                                neigh in self._neighs[node]}\n", "        comms = {self.partition.node_to_cluster_dict[neigh] for \\\n                                                neigh in self._out_neighs[node]}\n"),
 ("P13", N, "            self._neighs.append(list(set(self._out_neighs[node] + self._in_neighs[node])))\n", "            self._neighs.append(list(set(self._out_neighs[node] or self._in_neighs[node])))\n"),
 ("P13", N, "range(self._S.PTcsc.indptr[node],self._S.PTcsc.indptr[node+1])", "range(self._S.PT.indptr[node],self._S.PT.indptr[node+1])"),
 # 12
 ("P13", N, "            self._in_neighs.append([self._S.PTcsc.indices[i] for i in \\\n", "            self._in_neighs.append([self._S.PT.indices[i] for i in \\\n"),
 ("P21", N, "        T = T/T.sum(axis=1)[:, np.newaxis]\n        #also normalize p1 and p2 for rounding errors\n", "        T = T/T.sum(axis=0)[:, np.newaxis]\n        #also normalize p1 and p2 for rounding errors\n"),
 ("P21", N, "            # pass p1 and p2 as None since they could be floats\n            return S.PT, None, None, S\n", "            # pass p1 and p2 as None since they could be floats\n            return S.PT, S.p1 if np.ndim(S.p1) else None, S.p1 if np.ndim(S.p1) else None, S\n"),
 ("P21", N, "        if partition.get_num_clusters() == self.num_nodes:\n            # nothing to aggregate\n", "        if partition.get_num_clusters() >= self.num_nodes - 1:\n            # nothing to aggregate\n"),
 # 16
 ("P21", N, "            self._S[np.where(np.abs(S)<S_threshold)] = 0\n", "            self._S[np.where(np.abs(S)<=S_threshold)] = 0\n"),
 ("P06", N, "            return self.T, self.p1, self.p2, self._S\n        else:\n            S = self._S.aggregate(", "            return self.T, self.p1, self.p2, self._S\n        else:\n            self._S.PT.eliminate_zeros()\n            S = self._S.aggregate("),
 ("P12", N, "        self.partition_progress.append(deepcopy(self.source_part))\n        self.stability_progress.append(self.compute_stability())\n", "        self.partition_progress.append(self.source_part)\n        self.stability_progress.append(self.compute_stability())\n", 1),
 ("P12", N, "        return self.source_part.get_num_clusters(non_empty=True)\n", "        return self.source_part.get_num_clusters()\n"),
 # 20
 ("P22", N, "        self.source_part = Partition(num_nodes=self.num_nodes,\n                                     cluster_list=[set(range(self.num_nodes))])\n", "        self.source_part = Partition(num_nodes=self.num_nodes,\n                                     cluster_list=[set(range(1, self.num_nodes))])\n", 1),
 ("P22", N, "        for meta_node, original_nodes in enumerate(og_old_part.cluster_list):\n", "        for meta_node, original_nodes in enumerate(sorted(og_old_part.cluster_list, key=min)):\n"),
 ("P22", N, "            if n_meta_loop == 1:\n                # the first", "            if n_meta_loop == 1 and self._get_num_clusters() != 1:\n                # the first"),
 ("P22", N, "            self._update_original_partition(meta_clustering)\n\n\n            if (all", "            if delta_r_meta_loop > 0:\n                self._update_original_partition(meta_clustering)\n\n\n            if (all"),
 # 24
 ("P22", N, "                T, p1, p2, S = self._aggregate_clusters()\n", "                T, p1, p2, S = meta_clustering._aggregate_clusters()\n"),
 ("P22", N, "                                             rnd_state=self._rnd_state)\n\n            if save_progress", "                                             rnd_seed=0)\n\n            if save_progress"),
 ("P14", N, "        n_loop = super().find_louvain_clustering(delta_r_threshold=delta_r_threshold,\n", "        n_loop = super().find_louvain_clustering(delta_r_threshold=max(delta_r_threshold, 1e-10),\n"),
 ("P14", N, "        while (delta_r_loop > delta_r_threshold) and (n_loop < n_sub_iter_max):\n\n            delta_r_loop = 0\n            moved", "        while (delta_r_loop > delta_r_threshold*self.num_nodes) and (n_loop < n_sub_iter_max):\n\n            delta_r_loop = 0\n            moved"),
 # 28 flow integral
 ("P23", N, "                T_list.append(T_list[-1] @ T_inter_list[k])\n", "                T_list.append(T_list[-1] @ T_inter_list[k] if k < 1000 else T_list[-1])\n"),
 ("P23", N, "            self.I_list = [PT - np.outer(self.p1,self.p1) for PT in PT_list]\n", "            self.I_list = [PT - np.outer(self.p1,PT.sum(0)) for PT in PT_list]\n"),
 ("P23", N, "            self.I_list = [SparseAutocovMat(PT, pp1, pp1, PT_symmetric=True) for PT in PT_list]\n", "            self.I_list = [SparseAutocovMat(PT, pp1, pp1, PT_symmetric=False) for PT in PT_list]\n"),
 ("P23", N, "            self.I_list = [SparseAutocovMat(PT, pp1, pp1, PT_symmetric=True) for PT in PT_list]\n", "            self.I_list = [SparseAutocovMat(PT.T, pp1, pp1, PT_symmetric=True) for PT in PT_list]\n"),
 # 32 measures
 ("P31", N, "        return csc_matrix((Hdata", "        return csc_matrix((Hdata"),
 ("P12", N, "                H[list(c),i] = 1\n", "                H[sorted(c),i] = 1 if len(c) < 256 else 0\n"),
 ("P12", N, "            for node, clust in node_to_cluster_dict.items():\n                self.cluster_list[clust].add(node)\n", "            for node in range(len(node_to_cluster_dict)):\n                self.cluster_list[node_to_cluster_dict[node]].add(node)\n"),
 ("P06", N, "            self.node_to_cluster_dict = node_to_cluster_dict\n            self.cluster_list = [set() for _ in \\\n", "            self.node_to_cluster_dict = node_to_cluster_dict\n            node_to_cluster_dict.pop(None, None)\n            self.cluster_list = [set() for _ in \\\n"),
 # 36
 ("P33", N, "        stabilities.append(c.compute_stability())\n", "        stabilities.append(round(c.compute_stability(), 10))\n"),
 ("P33", N, "        c = clustering.__class__(p1=clustering.p1,\n", "        c = clustering.__class__(p1=clustering.p1 if clustering._S is not None else None,\n"),
 ("P33", N, "    seeds = n_random_seeds(num_repeat)\n    n_loops = []\n", "    seeds = list(set(n_random_seeds(num_repeat)))\n    n_loops = []\n"),
 ("P33", N, "        cluster_lists.append(c.partition.cluster_list)\n\n\n    return", "        cluster_lists.append(sorted(c.partition.cluster_list, key=len))\n\n\n    return"),
 # 40
 ("P33", N, "        n_loop = c.find_louvain_clustering(**kwargs)\n\n        n_loops.append(n_loop)\n", "        n_loop = c.find_louvain_clustering(**kwargs)\n        if n_loop > kwargs.get('n_meta_iter_max', 1000):\n            continue\n\n        n_loops.append(n_loop)\n"),
 ("P33", N, "                                 S=clustering._S,\n                                 T=clustering.T,\n                                 rnd_seed=seed)\n", "                                 S=None if clustering.T is not None else clustering._S,\n                                 T=clustering.T,\n                                 rnd_seed=seed)\n"),
 ("P11+P33", N, "def n_random_seeds(n):\n", "def n_random_seeds(n):\n    n = min(n, 1000)\n"),
 # 43 static
 ("P32", N, "    A_sl[degs==0,degs==0] = 1\n", "    A_sl[degs<=1e-3,degs<=1e-3] = 1\n"),
 ("P32", N, "    A_sl[degs==0,degs==0] = 1\n", "    A_sl[0 if degs.all() else degs.argmin(), degs.argmin()] = 1 if not degs.all() else A_sl[0, degs.argmin()]\n"),
]
