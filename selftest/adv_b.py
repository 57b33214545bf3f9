T,M="temporal_network.py","sparse_stoch_mat.py"
CASES=[
# --- saving / loading networks
("P04",T,'                      "is_directed"]\n\n        if attributes_list is None:\n            attributes_list = attributes\n\n        for','                      "is_directed"]\n\n        if not attributes_list:\n            attributes_list = [a for a in attributes if a != "time_grid"]\n\n        for'),
("P04",T,'        for attr in attributes_list:\n            if hasattr(self, attr):','        for attr in attributes_list:\n            if getattr(self, attr, None):'),
("P04",T,'        for mat in matrices_list:\n            if hasattr(self, mat):','        for mat in matrices_list:\n            if getattr(self, mat, None) is not None and len(getattr(self, mat)) > 1:'),
("P04",T,'            if k in matrices_list:\n                setattr(net, k, val)\n','            if k in matrices:\n                setattr(net, k, val)\n'),
("P04",T,'            if k in attributes_list:\n                setattr(net, k, val)\n','            if k in attributes_list and not hasattr(net, k):\n                setattr(net, k, val)\n'),
("P04",T,'        with open(filename, "wb") as fopen:\n            pickle.dump(save_dict','        with open(filename, "ab") as fopen:\n            pickle.dump(save_dict'),
("P04",T,'            filename = os.fspath(filename) + ".pickle"\n\n        with','            filename = os.path.splitext(filename)[0] + ".pickle"\n\n        with'),
("P04",T,'        if os.path.splitext(filename)[-1] != ".pickle":\n            filename = os.fspath(filename) + ".pickle"\n\n        graph','        if not os.path.exists(filename):\n            filename = os.fspath(filename) + ".pickle"\n\n        graph'),
("P04",T,'        events_table = graph_dict.pop("events_table")\n','        events_table = graph_dict.pop("events_table").reset_index(drop=True)\n'),
("P04",T,'        events_table = graph_dict.pop("events_table")\n','        events_table = graph_dict.pop("events_table").sort_values("starting_times")\n'),
("P04",T,'                           relabel_nodes=False,\n','                           relabel_nodes=True,\n'),
("P04",T,'                save_dict[mat] = getattr(self,mat)\n\n\n        # other','                save_dict[mat] = getattr(self,mat)\n                if mat == "adjacencies": self.adjacencies = None\n\n\n        # other'),
("P04",T,'        # other dots in the name, e.g. of a number, are not an extension\n        if os.path.splitext(filename)[-1] != ".pickle"','        if not os.fspath(filename).endswith("pickle")'),
# --- transition matrix files
("P05",T,'self._k_start_laplacians:self._k_stop_laplacians+1]\n            save_dict["num_nodes"]','self._k_start_laplacians:self._k_stop_laplacians]\n            save_dict["num_nodes"]'),
("P05",T,'["delta_inter_T_lin"] = self.delta_inter_T_lin[lamda][t_s]','["delta_inter_T_lin"] = self.delta_inter_T_lin[lamda][list(self.delta_inter_T_lin[lamda])[0]]'),
("P05",T,'                    lamdas = [lamda]\n\n                for lamda in lamdas:\n                    assert not','                    lamdas = list(self.inter_T.keys())[:1]\n\n                for lamda in lamdas:\n                    assert not'),
("P05",T,'                        if round_zeros:\n                            # rounding is for the file only\n                            interT = interT.copy()\n                            interT.set_to_zeroes(tol)\n','                        # rounding is for the file only\n                        interT = interT.copy()\n                        interT.set_to_zeroes(tol)\n'),
("P05",T,'                            interT = interT.copy()\n                            interT.set_to_zeroes(tol)\n','                            interT.set_to_zeroes(tol)\n'),
("P05+P30",T,'                            interT.set_to_zeroes(tol)\n','                            interT.set_to_zeroes()\n'),
("P05",T,'                        save_dict["inter_T"][lamda].append(interT.to_dict())','                        save_dict["inter_T"][lamda].insert(0, interT.to_dict())'),
("P05",T,'        if compressed:\n            if ext != ".gz":\n                file += ".gz"\n        elif','        if compressed:\n            if ext != ".gz":\n                file += ".zip"\n        elif'),
("P05",T,'        if compressed:\n            if ext != ".gz":\n                file += ".gz"\n        elif ext != ".pickle":\n            file','        if compressed:\n            if ext != ".gz":\n                file = os.path.splitext(file)[0] + ".gz"\n        elif ext != ".pickle":\n            file'),
("P05",T,'                skipping = True\n','                skipping = not compressed\n'),
("P05",T,'            if replace_existing:\n                print("PID ", os.getpid(), f" : , file {file} already exists, replacing it.")\n            else','            if replace_existing or not save_delta:\n                print("PID ", os.getpid(), f" : , file {file} already exists, replacing it.")\n            else'),
("P05",T,'                                 return_dict["inter_T"][lamda][-1] + dT)','                                 return_dict["inter_T"][lamda][0] + dT)'),
("P05",T,'return_dict["inter_T_lin"][lamda][t_s][-1]+dT)','return_dict["inter_T_lin"][lamda][t_s][-1]-dT)'),
("P05",T,'            elif os.path.exists(filename + ".gz"):\n                ext = ".gz"','            elif os.path.exists(filename + ".gz"):\n                ext = ".pickle"'),
("P05",T,'                for lamda in load_dict["inter_T"].keys():\n                    return_dict["inter_T"][lamda] = \\\n                        [load_dict','                for lamda in sorted(load_dict["inter_T"].keys())[:2]:\n                    return_dict["inter_T"][lamda] = \\\n                        [load_dict'),
("P05",T,'            lamdas = self.T.keys()','            lamdas = list(self.T.keys())[-1:]'),
("P05",T,'                save_dict["T"][lamda] = T.to_dict()','                save_dict["T"][lamda] = T.to_full_mat()'),
("P05",T,'                    T = self.T[lamda].copy()\n                    set_to_zeroes(T, tol)','                    T = self.T[lamda]\n                    set_to_zeroes(T, tol)'),
("P05+P30",T,'                    T = self.T[lamda].copy()\n                    set_to_zeroes(T, tol)','                    T = self.T[lamda].copy()\n                    set_to_zeroes(T, tol, False)'),
("P05",T,'SparseStochMat(**T) if isinstance(T, dict) else T\n\n            else:\n                for lamda in load_dict["T"]','SparseStochMat(**T)\n\n            else:\n                for lamda in load_dict["T"]'),
("P05",T,'return_dict["T"][lamda] = load_dict["T"][lamda]','return_dict["T"][lamda] = load_dict["T"][lamda].T'),
("P05",T,'"_t_stop_laplacians" : load_dict["_t_stop_laplacians"]','"_t_stop_laplacians" : load_dict["_t_start_laplacians"]',1),
("P05",T,'"num_nodes" : load_dict["num_nodes"]','"num_nodes" : len(load_dict["times_k_start_to_k_stop+1"])',1),
("P05",T,'                return_dict["T_lin"][lamda][t_s] = \\\n                                            load_dict["T_lin"][lamda][t_s]','                return_dict["T_lin"][lamda][t_s] = \\\n                                            load_dict["T_lin"][lamda]'),
]
