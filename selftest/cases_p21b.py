S = "sparse_stoch_mat.py"
CASES = [
    ("P20", "quiet", [(S, "return PTsum - (2*len(idx)+1)*self.p1p2", "return PTsum - (2*len(idx)+1)*self.p1*self.p2")], "the product of the weights written out"),
    ("P20", "fire", [(S, "return PTsum - (2*len(idx)+1)*self.p1p2", "return PTsum - (2*len(idx)+1)/self.p1p2")], "gain divides by the weights"),
    ("P21", "fire", [(S, "p0_sum = len(row_idx)*len(col_idx)*self.p1p2", "p0_sum = len(col_idx)*len(col_idx)*self.p1p2")], "block sum counts columns twice"),
    ("P21", "fire", [(S, "            p2 = p1 @ T\n\n        PT = T.copy()\n        inplace_diag", "            p2 = T @ p1\n\n        PT = T.copy()\n        inplace_diag")], "from_T: default p2 is T p1"),
    ("P21", "fire", [(S, "            p2 = p1 @ T\n\n        p2m1", "            p2 = T @ p1\n\n        p2m1")], "from_T_forward: default p2 is T p1"),
    ("P21", "quiet", [(S, "            p2 = p1 @ T\n\n        p2m1", "            p2 = T.T @ p1\n\n        p2m1")], "from_T_forward: default p2 as T^t p1"),
    ("P21", "fire", [(S, "        p2m1 = 1/p2m1\n", "")], "forward covariance multiplies by p2"),
    ("P21", "fire", [(S, "        p2m1[p2m1==0] = 1 # to avoid product of 0 * inf, which gives nan\n", "")], "zeros of p2 not replaced"),
    ("P21", "quiet", [(S, "p2m1[p2m1==0] = 1", "p2m1[p2m1==0] = 2.")], "zeros replaced by something else"),
    ("P21", "fire", [(S, "p1_scalar = False", "p1_scalar = True")], "given weights reduced to their first entry"),
    ("P21", "fire", [(S, "p1=copy(self.p1),", "p1=copy(self.p2),")], "copy with swapped weights"),
    ("P21", "fire", [(S, "self.__class__(PT=self.PT.copy(),", "self.__class__(PT=self.PT,")], "copy shares the matrix"),
    ("P21", "fire", [(S, "p0 = self.p1[i] * self.p2[j]", "p0 = self.p1[j] * self.p2[i]")], "element with swapped weights"),
    ("P21", "fire", [(S, "return self.PT.data[self.PT.indptr[i]+k[0]] - p0", "return self.PT.data[self.PT.indptr[j]+k[0]] - p0")], "element from another row"),
    ("P21", "quiet", [(S, "            return -1*p0\n        else:\n            return self.PT.data[self.PT.indptr[i]+k[0]] - p0", "            return -p0\n        start = self.PT.indptr[i]\n        return -p0 + self.PT.data[k[0] + start]")], "element rewritten"),
    ("P21", "fire", [(S, "if not np.allclose(self.PT.data[k], self.p1[row]*self.p2[col]):", "if not np.allclose(self.PT.data[k], self.p1[col]*self.p2[row]):")], "zero test with swapped weights"),
    ("P21", "fire", [(S, "if not np.allclose(self.PT.data[k], self.p1[row]*self.p2[col]):\n                        return False", "if not np.allclose(self.PT.data[k], self.p1[row]*self.p2[col]):\n                        return False\n                    return True")], "zero test looks at one entry"),
    ("P21", "quiet", [(S, "        return True\n\n", "        zero = True\n        return zero\n\n")], "zero test result named"),
    ("P21", "fire", [(S, "            p1 = np.ones(T.shape[0])/T.shape[0]\n            p1_scalar", "            p1 = np.ones(T.shape[0])/(T.shape[0]+1)\n            p1_scalar")], "uniform weights do not sum to one"),
]
