N = "temporal_network.py"
C = "network_clustering.py"
CASES = [
 ("P17", "fire", [(N, "t = self.times[self.times <= t].max()", "t = self.times[self.times >= t].min()")], "next time instead of previous"),
 ("P17", "fire", [(N, "            t, k = self._get_closest_time(t_start)\n            self._t_start_laplacians = t\n            self._k_start_laplacians = k\n        if t_stop is None:\n            self._t_stop_laplacians = self.times[-1]\n            self._k_stop_laplacians = len(self.times)-1\n        else:\n            t, k = self._get_closest_time(t_stop)\n            self._t_stop_laplacians = t\n            self._k_stop_laplacians = k\n\n        t0 = time.time()\n\n        if self._k_start", "            t, k = self._get_closest_time(t_start)\n            self._t_start_laplacians = t_start\n            self._k_start_laplacians = k\n        if t_stop is None:\n            self._t_stop_laplacians = self.times[-1]\n            self._k_stop_laplacians = len(self.times)-1\n        else:\n            t, k = self._get_closest_time(t_stop)\n            self._t_stop_laplacians = t\n            self._k_stop_laplacians = k\n\n        t0 = time.time()\n\n        if self._k_start")], "raw t_start recorded"),
 ("P17", "fire", [(N, "            self._k_stop_laplacians = len(self.times)-1\n        else:\n            t, k = self._get_closest_time(t_stop)\n            self._t_stop_laplacians = t\n            self._k_stop_laplacians = k\n\n        t0 = time.time()\n\n        if self._k_start", "            self._k_stop_laplacians = len(self.times)\n        else:\n            t, k = self._get_closest_time(t_stop)\n            self._t_stop_laplacians = t\n            self._k_stop_laplacians = k\n\n        t0 = time.time()\n\n        if self._k_start")], "k_stop len"),
 ("P17", "fire", [(N, "(self.time_grid.index.get_level_values(\"times\") < \\\n                       self._t_stop_laplacians)]\n\n        for k, (tk, time_ev) in enumerate(time_grid_range.groupby(level=\"times\")):\n            if not k%1000:\n                logger.info(\n                    f\"{k} over \"\n                    f\"{self._k_stop_laplacians - self._k_start_laplacians}\"\n                )\n                logger.info(", "(self.time_grid.index.get_level_values(\"times\") <= \\\n                       self._t_stop_laplacians)]\n\n        for k, (tk, time_ev) in enumerate(time_grid_range.groupby(level=\"times\")):\n            if not k%1000:\n                logger.info(\n                    f\"{k} over \"\n                    f\"{self._k_stop_laplacians - self._k_start_laplacians}\"\n                )\n                logger.info(")], "one interval too many"),
 ("P17", "fire", [(N, "                if use_sparse_stoch:\n                    self.inter_T[lamda].append(sparse_lapl_expm(self.laplacians[k],\n                                                                       tau_k*lamda,", "                if use_sparse_stoch:\n                    self.inter_T[lamda].append(sparse_lapl_expm(self.laplacians[k],\n                                                                       tau_k,")], "rate forgotten in the sparse branch"),
 ("P17", "fire", [(N, "                    tau_k = self.times[self._k_start_laplacians+k+1] - tk\n\n                if use_sparse_stoch:", "                    tau_k = self.times[k+1] - self.times[k]\n\n                if use_sparse_stoch:")], "intervals of the whole grid"),
 ("P17", "fire", [(N, "                    tau_k = self.times[self._k_start_laplacians+k+1] - tk\n\n                Lcsr", "                    tau_k = tk - self.times[self._k_start_laplacians+k-1]\n\n                Lcsr")], "previous interval (lin)"),
 ("P17", "fire", [(N, "expm(-tau_k*lamda*self.laplacians[k]).tocsr()", "expm(tau_k*lamda*self.laplacians[k]).tocsr()")], "sign"),
 ("P17", "fire", [(N, "expm(-tau_k*lamda*self.laplacians[k]).tocsr()", "expm(-tau_k*self.laplacians[k]).tocsr()")], "rate in the sparse expm branch"),
 ("P17", "fire", [(N, "                           lin_approx_trans_matrix(I - Lcsr,\n                                                   tau_k*lamda,\n                                                   Pi=self._stationary_trans[k],", "                           lin_approx_trans_matrix(I - Lcsr,\n                                                   tau_k*lamda,\n                                                   Pi=self._stationary_trans[0],")], "stationary of the first"),
 ("P17", "fire", [(N, "return (1/(1-t_s))*(T*(t-t_s)+Pi*(1-t))", "return (1/(1-t_s))*(T*(t-1)+Pi*(t_s-t))")], "weights"),
 ("P17", "fire", [(N, "        if t < t_s:\n", "        if t < t_s - 1:\n")], "threshold"),
 ("P17", "fire", [(N, "return (1-t)*I + t*T.tocsr()", "return t*I + (1-t)*T.tocsr()")], "weights at t<=1"),
 ("P17", "quiet", [(N, "return (1-t)*I + t*T.tocsr()", "Tcsr = T.tocsr()\n        return I + t*(Tcsr - I)")], "same line rearranged"),
 ("P17", "quiet", [(N, "return (1/(1-t_s))*(T*(t-t_s)+Pi*(1-t))", "w = (t - 1)/(t_s - 1)\n            return T*(1-w) + Pi*w")], "same weights"),
 ("P17", "quiet", [(N, "                    tau_k = self.times[self._k_start_laplacians+k+1] - tk\n\n                if use_sparse_stoch:", "                    first = self._k_start_laplacians + k\n                    tau_k = self.times[first+1] - self.times[first]\n\n                if use_sparse_stoch:")], "positions"),
 ("P17", "quiet", [(N, "            for k, tk in enumerate(self.times[self._k_start_laplacians:\n                                              self._k_stop_laplacians]):\n                if not k%1000:\n                    logger.debug(\n                        f\"{k} over \"\n                        f\"{self._k_stop_laplacians-1-self._k_start_laplacians}\"\n                    )\n                    logger.debug(f\"{time.time()-t0:.2f}s\")\n\n                if fix_tau_k:\n                    tau_k = 1.0\n                else:\n                    tau_k = self.times[self._k_start_laplacians+k+1] - tk\n\n                if use", "            for k in range(self._k_stop_laplacians - self._k_start_laplacians):\n                tau_k = 1.0 if fix_tau_k else (self.times[self._k_start_laplacians+k+1] - self.times[self._k_start_laplacians+k])\n\n                if use")], "range loop"),
 ("P17", "quiet", [(N, "                    self.inter_T[lamda].append(csr_matrix(expm(-tau_k*lamda*self.laplacians[k].toarray())))", "                    exponent = -(lamda*tau_k)*self.laplacians[k].toarray()\n                    T_k = csr_matrix(expm(exponent))\n                    self.inter_T[lamda].append(T_k)")], "locals"),
 ("P17", "quiet", [(N, "        if t not in self.times:\n        # take the largest smaller time\n            if t <= self.times[0]:\n                t = self.times[0]\n            else:\n                t = self.times[self.times <= t].max()\n\n        k = int(np.where(self.times == t)[0][0])\n\n        return t, k", "        if t in self.times:\n            t_grid = t\n        elif t <= self.times[0]:\n            t_grid = self.times[0]\n        else:\n            earlier = self.times[self.times <= t]\n            t_grid = earlier.max()\n\n        k = int(np.where(self.times == t_grid)[0][0])\n\n        return t_grid, k")], "closest rewritten"),
 ("P17", "quiet", [(N, "        t0 = time.time()\n\n        if self._k_start_laplacians > 0:", "        t0 = time.time()\n        k_first, k_last = self._k_start_laplacians, self._k_stop_laplacians\n\n        if k_first > 0:")], "window locals"),
]
