F = "temporal_network.py"
S = "sparse_stoch_mat.py"
LOADT = '''        for k,val in graph_dict.items():
            if k in matrices_list:
                setattr(net, k, val)
            if k in attributes_list:
                setattr(net, k, val)
'''
DELTA = '''                    for dT in load_dict["inter_T"][lamda]["delta_inter_T"]:
                        return_dict["inter_T"][lamda].append(\\
                                 return_dict["inter_T"][lamda][-1] + dT)
'''
SS = '''                    for interT in self.inter_T[lamda]:
                        if round_zeros:
                            # rounding is for the file only
                            interT = interT.copy()
                            interT.set_to_zeroes(tol)
                        save_dict["inter_T"][lamda].append(interT.to_dict())
'''
LISTC = '''                    return_dict["inter_T"][lamda] = \\
                        [SparseStochMat(**mat_dict) for mat_dict in \\
                                          load_dict["inter_T"][lamda]]
'''
OPENL = '''        if ext == ".gz" or ext == ".pickle.gz":
'''
CASES = [
    ("P04", "fire", [(F, '''                      "_k_stop_laplacians",
                      "_overlapping_events_merged",
                      "is_directed"]

        if attributes_list is None:
            attributes_list = attributes


        # all''', '''                      "_overlapping_events_merged",
                      "is_directed"]

        if attributes_list is None:
            attributes_list = attributes


        # all''')], "load list lacks an entry"),
    ("P04", "fire", [(F, LOADT, LOADT.replace("if k in attr", "elif k in attr").replace("in attributes_list", "in attributes_list[:-1]"))], "load skips the last"),
    ("P04", "fire", [(F, '''        with open(filename, "wb") as fopen:
            pickle.dump(save_dict, fopen)''', '''        with open(filename, "ab") as fopen:
            pickle.dump(save_dict, fopen)''')], "append mode"),
    ("P04", "fire", [(F, '''            filename = os.fspath(filename) + ".pickle"

        with''', '''            filename = os.path.splitext(filename)[0] + ".pickle"

        with''')], "file name cut by the saver"),
    ("P04", "fire", [(F, '''save_dict[attr] = getattr(self,attr)''', '''save_dict[attr] = getattr(self, attr.lstrip("_"), None)''')], "private ones looked up elsewhere"),
    ("P04", "quiet", [(F, '''graph_dict.pop("node_to_label_dict"))''', '''None)''')], "labels dropped"),
    ("P04", "quiet", [(F, '''        for mat in matrices_list:
            if hasattr(self, mat):
                save_dict[mat] = getattr(self,mat)
''', '''        save_dict.update({m: getattr(self, m) for m in matrices_list if hasattr(self, m)})
''')], "comprehension"),
    ("P04", "quiet", [(F, LOADT, '''        wanted = set(matrices_list) | set(attributes_list)
        for k,val in graph_dict.items():
            if k in wanted:
                setattr(net, k, val)
''')], "one test"),
    ("P04", "quiet", [(F, '''        graph_dict = pd.read_pickle(filename)
''', '''        with open(filename, "rb") as fopen:
            graph_dict = pickle.load(fopen)
''')], "pickle.load"),
    ("P04", "quiet", [(F, '''        if os.path.splitext(filename)[-1] != ".pickle":
            filename = os.fspath(filename) + ".pickle"

        with''', '''        base, ext = os.path.splitext(os.fspath(filename))
        if ext != ".pickle":
            filename = f"{base}{ext}.pickle"

        with''')], "another spelling of the name"),
    ("P05", "fire", [(F, 'use_absolute_value=True)', 'use_absolute_value=False)')], "signed rounding of differences"),
    ("P05", "fire", [(F, SS, SS.replace("                            interT = interT.copy()\n", ""))], "rounds the network's matrices"),
    ("P05", "fire", [(F, 'self.inter_T[lamda][0].copy()', 'self.inter_T[lamda][0]')], "first matrix not copied"),
    ("P05", "fire", [(F, SS, SS.replace("self.inter_T[lamda]:", "self.inter_T[lamda][1:]:"))], "first matrix skipped"),
    ("P05", "fire", [(F, '                                self._k_start_laplacians:self._k_stop_laplacians+1]\n            save_dict', '                                self._k_start_laplacians:self._k_stop_laplacians]\n            save_dict')], "times short"),
    ("P05", "fire", [(S, '"nz_rowcols" : self.nz_rowcols,\n                 "diag_val" : self.diag_val', '"nz_rowcols" : self.nz_rowcols')], "diag_val lost"),
    ("P05", "fire", [(S, '"indices" : self.T_small.indices', '"indices" : self.T_small.tocsc().indices')], "csc indices"),
    ("P05", "fire", [(F, OPENL, OPENL.replace('ext == ".gz" or ', ''))], "gz read as plain"),
    ("P05", "fire", [(F, '''with gzip.open(file,
                               "wb", compresslevel=2)''', '''with open(file, "wb")''')], "compressed not"),
    ("P05", "fire", [(F, DELTA, DELTA.replace("[-1] + dT", "[0] + dT"))], "adds to the first"),
    ("P05", "fire", [(F, 'return_dict["T_lin"][lamda][t_s] = \\\n                                            load_dict["T_lin"][lamda][t_s]', 'return_dict["T_lin"][lamda] = load_dict["T_lin"][lamda][t_s]')], "step count lost"),
    ("P05", "fire", [(F, 'if not hasattr(self, "delta_inter_T") or \\\n                                    lamda not in self.delta_inter_T.keys():', 'if not hasattr(self, "delta_inter_T"):')], "differences of the second rate missing"),
    ("P05", "quiet", [(F, DELTA, '''                    mats = return_dict["inter_T"][lamda]
                    for dT in load_dict["inter_T"][lamda]["delta_inter_T"]:
                        mats.append(mats[-1] + dT)
''')], "alias"),
    ("P05", "quiet", [(F, SS, '''                    for interT in self.inter_T[lamda]:
                        out = interT.copy() if round_zeros else interT
                        if round_zeros:
                            out.set_to_zeroes(tol=tol)
                        save_dict["inter_T"][lamda].append(out.to_dict())
''')], "conditional copy"),
    ("P05", "quiet", [(F, LISTC, '''                    return_dict["inter_T"][lamda] = []
                    for mat_dict in load_dict["inter_T"][lamda]:
                        return_dict["inter_T"][lamda].append(SparseStochMat(**mat_dict))
''')], "loop for comprehension"),
    ("P05", "quiet", [(F, OPENL, '''        if ext in (".gz", ".pickle.gz"):
''')], "membership"),
    ("P05", "quiet", [(F, OPENL, '''        if filename.endswith(".gz"):
''')], "suffix of the name"),
]

_T = "temporal_network.py"
CASES += [
 ("P05", "fire", [(_T, "                    T = self.T[lamda].copy()\n                    T.set_to_zeroes(tol)\n", "                    self.T[lamda].copy().set_to_zeroes(tol)\n                    T = self.T[lamda]\n")], "rounded copy thrown away"),
 ("P05", "fire", [(_T, "                    T = self.T[lamda].copy()\n                    set_to_zeroes(T, tol)\n", "                    T = self.T[lamda]\n                    set_to_zeroes(T.copy(), tol)\n")], "rounded csr copy thrown away"),
 ("P05", "quiet", [(_T, "                if round_zeros:\n                    T = self.T[lamda].copy()\n                    T.set_to_zeroes(tol)\n                else:\n                    T = self.T[lamda]\n", "                T = self.T[lamda].copy() if round_zeros else self.T[lamda]\n                if round_zeros:\n                    T.set_to_zeroes(tol)\n")], "conditional copy"),
 ("P05", "quiet", [(_T, "                if round_zeros:\n                    T = self.T[lamda].copy()\n                    T.set_to_zeroes(tol)\n                else:\n                    T = self.T[lamda]\n", "                T = self._rounded(self.T[lamda], round_zeros, tol)\n"), (_T, "    def save_T(self, filename", "    @staticmethod\n    def _rounded(M, round_zeros, tol):\n        if not round_zeros:\n            return M\n        M = M.copy()\n        M.set_to_zeroes(tol)\n        return M\n\n    def save_T(self, filename")], "helper for rounding"),
]
