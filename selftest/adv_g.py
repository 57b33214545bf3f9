"""independent bugs written from the properties' text (batch g): sparse_stoch_mat.py"""
M = "sparse_stoch_mat.py"
CASES = [
 ("P25", M, "        self.nz_rowcols = np.unique(np.array(nz_rowcols, dtype=np.int32)) #sorted unique\n", "        self.nz_rowcols = np.array(nz_rowcols, dtype=np.int32)\n"),
 ("P25", M, "        self.nz_rowcols = np.unique(np.array(nz_rowcols, dtype=np.int32)) #sorted unique\n", "        self.nz_rowcols = np.unique(np.array(nz_rowcols, dtype=np.int16)) #sorted unique\n"),
 ("P25", M, "                                  shape=(len(nz_rowcols),\n                                         len(nz_rowcols)))\n", "                                  )\n"),
 ("P25", M, "        self.T_small = csr_matrix((np.array(data, dtype=np.float64),", "        self.T_small = csr_matrix((np.array(data, dtype=np.float32),"),
 ("P25", M, "        self.shape = (size,size)\n", "        self.shape = self.T_small.shape\n"),
 ("P25", M, "        return cls(size, T_small.data, T_small.indices, T_small.indptr,\n                   nz_rowcols, diag_val=diag_val)\n", "        return cls(size, T_small.data, T_small.indices, T_small.indptr,\n                   nz_rowcols)\n"),
 ("P25", M, "            nz_rows, nz_cols = (Tcsr - diag_val * eye(Tcsr.shape[0], format=\"csr\")).nonzero()\n            nz_rowcols = np.union1d(nz_rows,nz_cols)\n", "            nz_rows, nz_cols = (Tcsr - diag_val * eye(Tcsr.shape[0], format=\"csr\")).nonzero()\n            nz_rowcols = np.unique(nz_rows)\n"),
 ("P25", M, "            nz_rows, nz_cols = (Tcsr - diag_val * eye(Tcsr.shape[0], format=\"csr\")).nonzero()\n            nz_rowcols = np.union1d(nz_rows,nz_cols)\n", "            nz_rows, nz_cols = (Tcsr - eye(Tcsr.shape[0], format=\"csr\")).nonzero()\n            nz_rowcols = np.union1d(nz_rows,nz_cols)\n"),
 ("P25", M, "            nz_rows, nz_cols = (Tcsr - diag_val * eye(Tcsr.shape[0], format=\"csr\")).nonzero()\n            nz_rowcols = np.union1d(nz_rows,nz_cols)\n", "            nz_rows, nz_cols = (Tcsr - diag_val * eye(Tcsr.shape[0], format=\"csr\")).nonzero()\n            nz_rowcols = np.intersect1d(nz_rows,nz_cols)\n"),
 ("P25", M, "                                       self.T_small.shape[0], row_sum)\n        self.diag_val = row_sum\n", "                                       self.T_small.shape[0], row_sum)\n"),
 ("P25", M, "                                       self.T_small.shape[0], row_sum)\n        self.diag_val = row_sum\n", "                                       self.T_small.shape[0], row_sum)\n        if self.diag_val != 0:\n            self.diag_val = row_sum\n"),  # rows with 0 on diag sum to 0: skipped => arguably right
 ("P30", M, "                tol = tol*np.abs([self.T_small.data.min(),self.T_small.data.max()]).max()\n", "                tol = tol*np.abs(self.T_small.data.max())\n"),
 ("P30", M, "                tol = tol*np.abs([self.T_small.data.min(),self.T_small.data.max()]).max()\n", "                tol = tol*max(self.T_small.data.max(), self.diag_val)\n"),
 ("P30", M, "            self.T_small.eliminate_zeros()\n", "            self.T_small.eliminate_zeros()\n            self.T_small.prune()\n"),   # equivalent
 ("P25", M, "                                  self.size,\n                                  self.diag_val)\n", "                                  self.size)\n"),
 ("P25+P06", M, "                                                      self.T_small.copy(),\n                                                      self.nz_rowcols.copy(),\n                                                      copy(self.diag_val))\n", "                                                      self.T_small.copy(),\n                                                      self.nz_rowcols.copy())\n"),
 ("P25", M, "        return SparseStochMat.from_small_csr_matrix(self.size,\n                                                      self.T_small - diag_val*eye(self.T_small.shape[0],\n                                                                                  format=\"csr\"),\n                                                      self.nz_rowcols,\n                                                      self.diag_val-diag_val)\n", "        return SparseStochMat.from_small_csr_matrix(self.size,\n                                                      self.T_small - diag_val*eye(self.T_small.shape[0],\n                                                                                  format=\"csr\"),\n                                                      self.nz_rowcols,\n                                                      abs(self.diag_val-diag_val))\n"),
 ("P25", M, "                                                      self.nz_rowcols,\n                                                      self.diag_val+diag_val)\n", "                                                      self.nz_rowcols,\n                                                      min(1.0, self.diag_val+diag_val))\n"),
 ("P25", M, "                                                      T_small=self.T_small.transpose(copy=copy).tocsr(),\n", "                                                      T_small=csr_matrix(self.T_small.tocsc()),\n"),
 ("P25", M, "                                                      T_small=self.T_small.transpose(copy=copy).tocsr(),\n                                                      nz_rowcols=nz_rowcols,\n                                                      diag_val=self.diag_val)\n", "                                                      T_small=self.T_small.transpose(copy=copy).tocsr(),\n                                                      nz_rowcols=nz_rowcols)\n"),
 ("P25", M, "            if self.diag_val == 1.0:\n                aB = B # avoid making a copy of B\n", "            if self.diag_val > 0.999999:\n                aB = B # avoid making a copy of B\n"),
 ("P25", M, "            if B.diag_val == 1.0:\n                bA = self\n", "            if self.diag_val == 1.0:\n                bA = self\n"),
 ("P25", M, "            if len(interset) == 0:\n", "            if len(interset) <= 1:\n"),
 ("P25", M, "                return (bA + aB).sub_diag(self.diag_val * B.diag_val)\n            else:\n", "                return (bA + aB).sub_diag(1.0)\n            else:\n"),
 ("P25", M, "                                                             AmI_small.tocsr() @ BmI_small.tocsr(),\n", "                                                             BmI_small.tocsr() @ AmI_small.tocsr(),\n"),
 ("P25", M, "                return CmI + (bA + aB).sub_diag(self.diag_val * B.diag_val)\n", "                return CmI + (bA + aB).sub_diag(max(self.diag_val, B.diag_val))\n"),
 ("P25", M, "                                                                    B.diag_val * eye(B.T_small.shape[0],\n", "                                                                    self.diag_val * eye(B.T_small.shape[0],\n"),
 ("P25", M, "                    while B.nz_rowcols[ib_col] != Cnz_rowcols[ic_col]:\n                        ic_col+=1\n                    Bcol_to_Ccol[ib_col] = ic_col\n", "                    while B.nz_rowcols[ib_col] > Cnz_rowcols[ic_col]:\n                        ic_col+=1\n                    Bcol_to_Ccol[ib_col] = ic_col\n                    ic_col += 1\n"),  # equivalent
 ("P25", M, "                ib_col = 0\n                ic_col = 0\n", "                ib_col = 0\n"),
 ("P25", M, "            return s2 @ self.to_full_mat()\n", "            return (self.to_full_mat() @ s2.T).T\n"),
 ("P25", M, "            return B - self.to_full_mat()\n", "            return self.to_full_mat() - B\n"),
 ("P25", M, "                                    self.nz_rowcols.copy(),\n                                    self.diag_val*o)\n", "                                    self.nz_rowcols.copy(),\n                                    self.diag_val if self.diag_val == 1.0 else self.diag_val*o)\n"),
 ("P25", M, "        if isinstance(row_sum, float):\n            _css", "        if isinstance(row_sum, float) and row_sum > 0:\n            _css"),
 ("P25", M, "            _css.inplace_csr_row_normalize_array(X.data, indptr,\n                                                    X.shape[0], row_sum)\n", "            _css.inplace_csr_row_normalize(X.data, indptr,\n                                                    X.shape[0], row_sum.max())\n"),
 ("P25", M, "    return csr_matrix((data, indices, indptr),\n                       shape=(size,size))\n\ndef inplace_csr_matmul_diag", "    return csr_matrix((data, indices, indptr),\n                       )\n\ndef inplace_csr_matmul_diag"),
 ("P25", M, "    return csr_matrix((data, indices, indptr),\n                       shape=(size,size))\n", "    return csr_matrix((data, indices, indptr))\n"),
 ("P25", M, "    if isspmatrix_csr(A):\n        csr_scale_rows(A.shape[0], A.shape[1], A.indptr,\n                       A.indices, A.data, diag_vec)\n", "    if isspmatrix_csr(A):\n        csr_scale_columns(A.shape[0], A.shape[1], A.indptr,\n                       A.indices, A.data, diag_vec)\n"),
 ("P25", M, "    elif isspmatrix_csc(A):\n        csr_scale_rows(A.shape[0], A.shape[1], A.indptr,\n", "    elif isspmatrix_csc(A):\n        csr_scale_columns(A.shape[0], A.shape[1], A.indptr,\n"),
 ("P21", M, "        p2m1[p2m1==0] = 1 # to avoid", "        p2m1[p2m1<1e-6] = 1 # to avoid"),
 ("P21", M, "        PT = PT @ T.T\n", "        PT = T.T @ PT\n"),
 ("P21", M, "        inplace_diag_matmul_csr(PT, p1)\n        inplace_csr_matmul_diag(PT, p1)\n", "        inplace_diag_matmul_csr(PT, p1)\n        inplace_csr_matmul_diag(PT, p2)\n"),
 ("P21", M, "            return cls(PT=PT, p1=p1, p2=p1, PT_symmetric=True)\n", "            return cls(PT=PT, p1=p1, p2=p2, PT_symmetric=True)\n"),
 ("P21+P22", M, "                              PT_symmetric=self.PT_symmetric)\n\n\n    def is_all_zeros", "                              PT_symmetric=True)\n\n\n    def is_all_zeros"),
 ("P21+P20", M, "        return cls(PT=PT, p1=p1, p2=p2)\n", "        return cls(PT=PT, p1=p1, p2=p2, PT_symmetric=np.allclose(p1, p2))\n"),
 ("P21", M, "            p2 = p1 @ T\n\n        PT = T.copy()\n", "            p2 = p1\n\n        PT = T.copy()\n"),
 ("P21", M, "            return self.PT.toarray() - np.outer(self.p1, self.p2)\n", "            return self.PT.toarray() - np.outer(self.p2, self.p1)\n"),
 ("P21", M, "            return self.PT.data[self.PT.indptr[i]+k[0]] - p0\n", "            return self.PT.data[k[0]] - p0\n"),
 ("P21", M, "            newp2[k] = oldp2[idx].sum()\n", "            newp2[k] = oldp2[idx].mean()\n"),
 ("P21+P22", M, "            newp2[k] = oldp2[idx].sum()\n", "            newp2[k] = oldp1[idx].sum()\n"),
 ("P21+P22", M, "        if new_size**2 < self.PT.data.size:\n", "        if new_size**2 <= self.PT.data.size or self.PT_symmetric:\n"), # equivalent
 ("P21", M, "        idxptr = np.cumsum([0]+[len(idx) for idx in idx_list], dtype=np.int32)\n", "        idxptr = np.cumsum([0]+[len(idx) for idx in idx_list if len(idx) > 0], dtype=np.int32)\n"),
 ("P21", M, "        idxs_array = np.array([i for idx in idx_list for i in idx], dtype=np.int32)\n", "        idxs_array = np.array(sorted(i for idx in idx_list for i in idx), dtype=np.int32)\n"),
 ("P20", M, "            return PTsum - (2*len(idx)+1)*self.p1p2\n", "            return PTsum - (2*len(idx))*self.p1p2\n"),
 ("P20", M, "            return PTsum + (2*len(idx)-1)*self.p1p2\n", "            return PTsum + (2*len(idx)-1)*self.p1p2 if len(idx) > 1 else PTsum\n"),
 ("P25+P23", M, "        return gram_matrix_mkl(A, transpose=transpose)\n", "        return gram_matrix_mkl(A, transpose=not transpose)\n"),
 ("P25+P23", M, "        return A @ A.T\n    else:\n        return A.T @ A\n", "        return A.T @ A\n    else:\n        return A @ A.T\n"),
]
