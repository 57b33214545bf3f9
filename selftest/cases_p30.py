"""P30: fire = behaviour broken, quiet = behaviour kept"""
TN, SM, NC = "temporal_network.py", "sparse_stoch_mat.py", "network_clustering.py"
CASES = [
    ("P30", "fire", [(SM, "tol = tol*np.abs([self.T_small.data.min(),self.T_small.data.max()]).max()", "tol = tol*self.T_small.data.max()")], "relative to the largest, not the largest absolute entry"),
    ("P30", "fire", [(SM, "self.T_small.data[np.abs(self.T_small.data) <= tol] = 0", "self.T_small.data[self.T_small.data <= tol] = 0")], "absolute value ignored"),
    ("P30", "fire", [(SM, "            self.T_small.eliminate_zeros()\n", "")], "zeros stay stored"),
    ("P30", "fire", [(SM, "        if self.T_small.data.size > 0:\n            if relative:", "        if self.T_small.data.size >= 0:\n            if relative:")], "empty matrices raise"),
    ("P30", "quiet", [(SM, "        if self.T_small.data.size > 0:\n            if relative:", "        if self.T_small.data.size:\n            if relative:")], "truth of the size"),
    ("P30", "fire", [(TN, "            Tcsr.set_to_zeroes(tol, relative=relative,\n                               use_absolute_value=use_absolute_value)", "            Tcsr.set_to_zeroes(tol, relative=relative)")], "option not handed over"),
    ("P30", "fire", [(TN, "            Tcsr.set_to_zeroes(tol, relative=relative,\n                               use_absolute_value=use_absolute_value)", "            Tcsr.set_to_zeroes(tol, use_absolute_value, relative)")], "options swapped"),
    ("P30", "fire", [(TN, "    if tol is not None:\n        if isinstance(Tcsr, SparseStochMat):", "    if True:\n        if isinstance(Tcsr, SparseStochMat):")], "no tolerance is an error"),
    ("P30", "fire", [(TN, "    Tcsr.data[np.abs(Tcsr.data - 1) <= tol] = 1", "    Tcsr.data[Tcsr.data - 1 <= tol] = 1")], "all smaller entries become one"),
    ("P30", "fire", [(TN, "                if use_absolute_value:\n                    Tcsr.data", "                if not relative:\n                    Tcsr.data")], "wrong option"),
    ("P30", "fire", [(TN, "                    set_to_zeroes(Tk,tol)", "                    set_to_zeroes(Tk)")], "default tolerance"),
    ("P30", "fire", [(TN, "                        set_to_zeroes(M, tol=tol, use_absolute_value=True)", "                        set_to_zeroes(M, tol=tol)")], "negative differences dropped"),
    ("P30", "fire", [(TN, "                            interT.set_to_zeroes(tol)", "                            interT.set_to_zeroes(tol, relative=False)")], "absolute at one place"),
    ("P30", "quiet", [(TN, "tol = tol*np.abs([Tcsr.data.min(),Tcsr.data.max()]).max()", "tol = np.abs(Tcsr.data).max() * tol")], "another spelling of the largest absolute entry"),
    ("P30", "quiet", [(TN, "                if use_absolute_value:\n                    Tcsr.data[np.abs(Tcsr.data) <= tol] = 0\n                else:\n                    Tcsr.data[Tcsr.data <= tol] = 0\n",
                       "                vals = np.abs(Tcsr.data) if use_absolute_value else Tcsr.data\n                Tcsr.data[vals <= tol] = 0\n")], "one store"),
    ("P30", "quiet", [(TN, "                if use_absolute_value:\n                    Tcsr.data[np.abs(Tcsr.data) <= tol] = 0\n                else:\n                    Tcsr.data[Tcsr.data <= tol] = 0\n",
                       "                data = Tcsr.data\n                mask = data <= tol\n                if use_absolute_value:\n                    mask = np.abs(data) <= tol\n                data[mask] = 0\n")], "a mask"),
    ("P30", "quiet", [(TN, "    if tol is not None:\n        if isinstance(Tcsr, SparseStochMat):", "    if tol is None:\n        return\n    if tol is not None:\n        if isinstance(Tcsr, SparseStochMat):")], "early return"),
    ("P30", "quiet", [(SM, "tol = tol*np.abs([self.T_small.data.min(),self.T_small.data.max()]).max()", "largest = max(abs(self.T_small.data.min()), abs(self.T_small.data.max()))\n                tol = tol*largest")], "builtin max"),
]
