"""time grid, products and stationary limits: rules added after the batches j and k"""
N = "temporal_network.py"
C = "network_clustering.py"
CASES = [
 ("P24", "fire", [(N, "        self.times = self.time_grid.index.levels[0]\n", "        self.times = self.time_grid.index.levels[0].round(6)\n")], "times rounded"),
 ("P24", "fire", [(N, "        self.times = self.time_grid.index.levels[0]\n", "        self.times = self.time_grid.index.levels[0][:-1]\n")], "last time left out"),
 ("P24", "quiet", [(N, "        self.times = self.time_grid.index.levels[0]\n", "        self.times = self.time_grid.index.get_level_values(0).unique()\n")], "unique level values"),
 ("P24", "quiet", [(N, "        self.times = self.time_grid.index.levels[0]\n", "        levels = self.time_grid.index.levels\n        self.times = levels[0]\n")], "levels first"),
 ("P24", "fire", [(N, '["starting_times","index"]', '["starting_times","target_nodes"]')], "rows numbered by node"),
 ("P24", "fire", [(N, "            start_time = self.start_time\n\n        if end_time is None", "            start_time = self.events_table.starting_times.iloc[0]\n        if end_time is None")], "first row is not the earliest"),
 ("P24", "quiet", [(N, "            start_time = self.start_time\n\n        if end_time is None", "            start_time = self.events_table.starting_times.min()\n        if end_time is None")], "least start"),
 ("P17", "fire", [(N, "            if len(self.inter_T[lamda]) == 0:\n", "            if len(self.inter_T[lamda]) < 2:\n")], "identity added to one interval"),
 ("P17", "quiet", [(N, "            if len(self.inter_T[lamda]) == 0:\n", "            if len(self.inter_T[lamda]) < 1:\n")], "fewer than one"),
 ("P17", "quiet", [(N, "            if len(self.inter_T[lamda]) == 0:\n", "            if not self.inter_T[lamda]:\n")], "empty list"),
 ("P17", "fire", [(N, "fix_tau_k=True,", "fix_tau_k=not use_sparse_stoch,")], "unit steps sometimes"),
 ("P16", "fire", [(N, "self.T[lamda].append(self.T[lamda][-1] @ Tk)", "self.T[lamda].append(self.T[lamda][-1] @ Tk if Tk.nnz > self.num_nodes else self.T[lamda][-1].copy())")], "product left out"),
 ("P16", "fire", [(N, "self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][-1] @ \\\n", "self.T_lin[lamda][t_s].append(self.T_lin[lamda][t_s][k-1] @ \\\n")], "onto entry k-1"),
 ("P29", "fire", [(N, "        degs = np.diff(T.indptr)\n", "        degs = np.asarray(T.sum(0)).squeeze()\n")], "column sums"),
 ("P29", "fire", [(N, "        cmp_degs = degs[cmp_to_indices[cmp]]\n", "        cmp_degs = np.sort(degs[cmp_to_indices[cmp]])\n")], "degrees sorted"),
 ("P29", "quiet", [(N, "        degs = np.diff(T.indptr)\n", "        degs = np.asarray(np.diff(T.indptr)).ravel()\n")], "degrees as flat array"),
]
