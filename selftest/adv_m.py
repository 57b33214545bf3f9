"""independent bugs written from the property's text (batch m): functions little tried before"""
TN, NC, SS, PE, PCL = "temporal_network.py", "network_clustering.py", "sparse_stoch_mat.py", "parallel_expm.py", "parallel_clustering.py"
SUB = "_cython_subst.py"
CASES = [
 # save/load
 ("P05", TN, "                        for interT in self.inter_T_lin[lamda][t_s]:\n", "                        for interT in self.inter_T_lin[lamda][t_s][:-1]:\n", 0),
 ("P05", TN, "                                interT = interT.copy()\n                                interT.set_to_zeroes(tol=tol)\n                            save_dict[\"inter_T_lin\"]", "                                interT = interT.copy()\n                                interT.set_to_zeroes(tol=1e-3)\n                            save_dict[\"inter_T_lin\"]", 0),
 ("P05", TN, "save_dict[\"inter_T_lin\"][lamda][t_s][\"trans_mat_lin0\"] = self.inter_T_lin[lamda][t_s][0].copy()", "save_dict[\"inter_T_lin\"][lamda][t_s][\"trans_mat_lin0\"] = self.inter_T_lin[lamda][t_s][-1].copy()", 0),
 ("P05", TN, "                save_dict[\"T\"][lamda] = T\n\n                text = \"csr T\"", "                save_dict[\"T\"][lamda] = T.T.tocsr()\n\n                text = \"csr T\"", 0),
 # 4
 ("P05", TN, "                    T = self.T_lin[lamda][t_s].copy()\n                        set_to_zeroes(T, tol)\n", "                    T = self.T_lin[lamda][t_s]\n                        set_to_zeroes(T, tol)\n", 0),
 ("P05", TN, "                        T = self.T_lin[lamda][t_s].copy()\n                        T.set_to_zeroes(tol)\n", "                        T = self.T_lin[lamda][t_s].copy()\n                        T.set_to_zeroes(tol*10)\n", 0),
 ("P05", TN, "            lamdas = self.T_lin.keys()\n        else:\n            lamdas = [lamda]\n\n        for lamda in lamdas:\n            save_dict[\"T_lin\"]", "            lamdas = list(self.T_lin.keys())[:1]\n        else:\n            lamdas = [lamda]\n\n        for lamda in lamdas:\n            save_dict[\"T_lin\"]", 0),
 ("P05", TN, "        save_dict[\"_t_stop_laplacians\"] = self._t_stop_laplacians\n        save_dict[\"times_k_start_to_k_stop+1\"] = self.times.values[\\\n                            self._k_start_laplacians:self._k_stop_laplacians+1]\n        save_dict[\"num_nodes\"] = self.num_nodes\n        save_dict[\"_compute_times\"] = self._compute_times\n\n\n        save_dict[\"T_lin\"]", "        save_dict[\"_t_stop_laplacians\"] = self._t_stop_laplacians\n        save_dict[\"times_k_start_to_k_stop+1\"] = self.times.values[\\\n                            self._k_start_laplacians:self._k_stop_laplacians+2]\n        save_dict[\"num_nodes\"] = self.num_nodes\n        save_dict[\"_compute_times\"] = self._compute_times\n\n\n        save_dict[\"T_lin\"]", 0),
 # 8
 ("P05", TN, "                       \"_t_stop_laplacians\" : load_dict[\"_t_stop_laplacians\"],", "                       \"_t_stop_laplacians\" : load_dict[\"_t_start_laplacians\"],", 0),
 ("P05", TN, "                       \"_t_stop_laplacians\" : load_dict[\"_t_stop_laplacians\"],", "                       \"_t_stop_laplacians\" : load_dict[\"_t_start_laplacians\"],", 1),
 ("P05", TN, "                    T = self.T[lamda].copy()\n                    T.set_to_zeroes(tol)\n                else:\n                    T = self.T[lamda]\n                save_dict[\"T\"][lamda] = T.to_dict()", "                    T = self.T[lamda].copy()\n                    T.set_to_zeroes(tol)\n                    T = self.T[lamda]\n                else:\n                    T = self.T[lamda]\n                save_dict[\"T\"][lamda] = T.to_dict()", 0),
 ("P05", TN, "            elif os.path.exists(filename + \".gz\"):\n                ext = \".gz\"\n                filename += \".gz\"\n            elif os.path.exists(filename + \".pickle.gz\"):\n                ext = \".pickle.gz\"\n                filename += \".pickle.gz\"\n            else:\n                raise FileNotFoundError(filename)\n\n        if ext == \".gz\" or ext == \".pickle.gz\":\n            with gzip.open(filename,\n                           \"rb\") as fopen:\n                load_dict = pickle.load(fopen)\n\n        else:\n            with open(filename, \"rb\") as fopen:\n                load_dict = pickle.load(fopen)\n\n        return_dict = {\"_k_start_laplacians\"", "            elif os.path.exists(filename + \".gz\"):\n                ext = \".gz\"\n                filename += \".gz\"\n            elif os.path.exists(filename + \".pickle.gz\"):\n                ext = \".pickle.gz\"\n                filename += \".pickle.gz\"\n            else:\n                raise FileNotFoundError(filename)\n\n        if ext == \".pickle.gz\":\n            with gzip.open(filename,\n                           \"rb\") as fopen:\n                load_dict = pickle.load(fopen)\n\n        else:\n            with open(filename, \"rb\") as fopen:\n                load_dict = pickle.load(fopen)\n\n        return_dict = {\"_k_start_laplacians\"", -1),
 # 12 clustered autocovariance
 ("P20", NC, "                        R[s,t] = self._S[s_cluster_to_node_list[s],\n                                         t_cluster_to_node_list[t]].sum()\n", "                        R[s,t] = self._S[t_cluster_to_node_list[t].T,\n                                         s_cluster_to_node_list[s].T].sum()\n", 0),
 ("P20", NC, "        for s in range(num_s_clusters):\n            Rnew[s,c_f_t] +=  self._S[s_cluster_to_node_list[s],k].sum()\n", "        for s in range(num_s_clusters):\n            Rnew[s,c_f_t] +=  self._S[k,s_cluster_to_node_list[s]].sum()\n", 0),
 ("P20", NC, "        Rnew[c_i_s,c_f_t] -= self._S[k,k]\n        Rnew[c_f_s,c_i_t] -= self._S[k,k]\n", "        Rnew[c_i_s,c_f_t] -= self._S[k,k]\n        Rnew[c_i_s,c_i_t] -= self._S[k,k]\n", 0),
 ("P20", NC, "        Rnew[c_i_s,c_i_t] += self._S[k,k]\n\n\n        return Rnew", "        Rnew[c_i_s,c_i_t] -= self._S[k,k]\n\n\n        return Rnew", 0),
 # 16
 ("P20", NC, "            Rold = self._compute_clustered_autocov(partition=(source_part,target_part))\n\n        Rnew = Rold.copy()\n\n        if k", "            Rold = self._compute_clustered_autocov()\n\n        Rnew = Rold.copy()\n\n        if k", 0),
 ("P20", NC, "        for t in range(num_t_clusters):\n            Rnew[c_i_s,t] -=  self._S[k,t_cluster_to_node_list[t]].sum()\n", "        for t in range(num_s_clusters):\n            Rnew[c_i_s,t] -=  self._S[k,t_cluster_to_node_list[t]].sum()\n", 0),
 ("P06", NC, "        Rnew = Rold.copy()\n\n        num_s_clusters", "        Rnew = Rold\n\n        num_s_clusters", 0),
 ("P06", NC, "        Rnew = Rold.copy()\n\n        if k", "        Rnew = Rold\n\n        if k", 0),
 # 20
 ("P22", NC, "        self.source_part_progress.append(deepcopy(self.source_part))\n", "        self.source_part_progress.append(self.source_part)\n", 0),
 ("P25", SS, "                                   B.nz_rowcols,\n                                   B.diag_val)\n", "                                   B.nz_rowcols,\n                                   self.diag_val)\n", 0),
 ("P25", SS, "                                   B.nz_rowcols,\n                                   B.diag_val)\n", "                                   self.nz_rowcols,\n                                   B.diag_val)\n", 1),
 ("P25", SS, "            return B - self.to_full_mat()\n", "            return self.to_full_mat() - B\n", 0),
 # 24
 ("P25", SS, "            return self.to_full_mat() - B\n", "            return self.T_small - B\n", 0),
 ("P21", SS, "            self.p1p2 = p1*p2\n", "            self.p1p2 = p1*p1\n", 0),
 ("P21", SS, "            self.PTcsc = self.PT.tocsc()\n", "            self.PTcsc = self.PT\n", 0),
 ("P21", SS, "            p0 = (self.p1[row] * self.p2[idx]).sum()\n", "            p0 = (self.p2[row] * self.p1[idx]).sum()\n", 0),
 # 28
 ("P21", SS, "            p0 = (self.p1[idx] * self.p2[col]).sum()\n", "            p0 = (self.p2[idx] * self.p1[col]).sum()\n", 0),
 ("P21", SS, "        PTsum = _css.get_submat_sum(self.PTcsc.data, self.PTcsc.indices,\n                                        self.PTcsc.indptr,", "        PTsum = _css.get_submat_sum(self.PT.data, self.PT.indices,\n                                        self.PT.indptr,", 0),
 ("P21", SS, "        indices_list = [p.indices[p.indices >= r] for r in p.indices]\n", "        indices_list = [p.indices[p.indices > r] for r in p.indices]\n", 0),
 ("P21", SS, "            return -1*p0\n", "            return 0\n", 0),
 # 32
 ("P29", PE, "        indptr[col+1] = ptr\n", "        indptr[col] = ptr\n", 0),
 ("P29", PE, "        data[ptr:ptr+nnz_col] = C.T.tocsc().data\n        indices[ptr:ptr+nnz_col] = C.T.tocsc().indices\n", "        data[ptr:ptr+nnz_col] = C.data\n        indices[ptr:ptr+nnz_col] = C.T.tocsc().indices\n", 0),
 ("P31", PCL, "    nvi = norm_var_information(c1, c2, N,\n", "    nvi = norm_var_information(c1, c1, N,\n", 0),
 ("P11", PCL, "    clustering = SparseClustering(p1=var_dict[\"p1\"],\n                                  p2=var_dict[\"p2\"],", "    clustering = SparseClustering(p1=var_dict[\"p1\"],\n                                  p2=var_dict[\"p1\"],", 0),
 # 36
 ("P11", PCL, "    var_dict[\"T\"] = S.PT\n", "    var_dict[\"T\"] = S.PTcsc\n", 0),
 ("P11", PCL, "        PTindptr = RawArray(\"l\", clustering._S.PT.indptr)\n", "        PTindptr = RawArray(\"l\", clustering._S.PTcsc.indptr)\n", 0),
]
