N = "temporal_network.py"
C = "network_clustering.py"
F = "flow_stability.py"
CASES = [
 ("P16", "fire", [(N, "            k_range = reversed(range(k_init))", "            k_range = range(k_init)")], "backward product in forward order"),
 ("P16", "fire", [(N, "            k_init = len(self.inter_T[lamda])-1\n            k_range = reversed(range(k_init))", "            k_init = len(self.inter_T[lamda])-1\n            k_range = reversed(range(1, k_init))")], "first interval left out"),
 ("P16", "fire", [(N, "k_range = range(1,len(self.inter_T[lamda]))", "k_range = range(1,len(self.inter_T[lamda])-1)")], "last interval left out"),
 ("P16", "fire", [(N, "                    self.T[lamda] = self.T[lamda] @ Tk", "                    self.T[lamda] = Tk @ self.T[lamda]")], "side in the memory-saving branch"),
 ("P16", "fire", [(N, "                k_init = len(self.inter_T_lin[lamda][t_s])-1\n                k_range = reversed(range(k_init))", "                k_init = 0\n                k_range = reversed(range(1, len(self.inter_T_lin[lamda][t_s])))")], "lin backward starts with the first"),
 ("P16", "fire", [(N, "            if t_s not in self.T_lin[lamda].keys():\n                if save_intermediate:\n                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]", "            if t_s not in self.T_lin[lamda].keys():\n                if save_intermediate:\n                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][0]]")], "start matrix for a further t_s"),
 ("P16", "fire", [(C, "            if reverse_time:\n                T_inter_list = T_inter_list[::-1]\n", "")], "matrices not reversed"),
 ("P16", "fire", [(C, "        if reverse_time:\n            self.time_list = self.time_list[::-1]\n", "")], "times not reversed"),
 ("P16", "fire", [(C, "if reverse_time and dire > 0:", "if reverse_time and dire < 0:")], "grid flipped the wrong way"),
 ("P16", "fire", [(C, "            if not reverse_time and dire < 0:\n                integral_time_grid = integral_time_grid[::-1]\n", "")], "decreasing grid, forward"),
 ("P16", "fire", [(C, "                        t = self.time_list[self.time_list >= t].min()", "                        t = self.time_list[self.time_list <= t].max()")], "backward grid time placed too far"),
 ("P16", "fire", [(C, "                T_list.append(T_list[-1] @ T_inter_list[k])", "                T_list.append(T_inter_list[k] @ T_list[-1])")], "side, dense"),
 ("P16", "fire", [(C, "sparse_matmul(T_list[-1], T_inter_list[k].tocsr()", "sparse_matmul(T_list[0], T_inter_list[k].tocsr()")], "not the running product"),
 ("P16", "fire", [(F, "                    kwargs.update(dict(reverse_time=False))\n", "")], "left from the backward pass"),
 ("P16", "fire", [(F, "            assert not _flow_clustering.reversed_time\n", "")], "setter accepts the other direction"),
 ("P16", "quiet", [(N, "            k_init = len(self.inter_T[lamda])-1\n            k_range = reversed(range(k_init))", "            k_init = len(self.inter_T[lamda])-1\n            k_range = range(k_init-1, -1, -1)")], "explicit countdown"),
 ("P16", "quiet", [(N, "                    self.T[lamda].append(self.T[lamda][-1] @ Tk)", "                    previous = self.T[lamda][-1]\n                    self.T[lamda].append(previous @ Tk)")], "local for the previous product"),
 ("P16", "quiet", [(C, "            if reverse_time:\n                T_inter_list = T_inter_list[::-1]\n", "            if reverse_time:\n                T_inter_list = list(reversed(T_inter_list))\n")], "reversed"),
 ("P16", "quiet", [(C, "        if reverse_time:\n            self.time_list = self.time_list[::-1]\n", "        self.time_list = self.time_list[::-1] if reverse_time else self.time_list\n")], "conditional expression"),
 ("P16", "quiet", [(C, "            if reverse_time and dire > 0:\n                integral_time_grid = integral_time_grid[::-1]\n            if not reverse_time and dire < 0:\n                integral_time_grid = integral_time_grid[::-1]\n", "            wrong_way = dire > 0 if reverse_time else dire < 0\n            if wrong_way:\n                integral_time_grid = integral_time_grid[::-1]\n")], "one test"),
 ("P16", "quiet", [(C, "        for k in range(1,len(T_inter_list)):", "        for k, _ in enumerate(T_inter_list[1:], start=1):")], "enumerate"),
 ("P16", "quiet", [(C, "            if is_nparray:\n                T_list.append(T_list[-1] @ T_inter_list[k])", "            if is_nparray:\n                step = T_inter_list[k]\n                T_list.append(np.matmul(T_list[k-1], step))")], "matmul with index"),
]
