S = "sparse_stoch_mat.py"
K = "_cython_sparse_stoch.pyx"
C = "sparse_accumulator.cpp"
SUBV = "                spa.scatter(-1*Bdata[k], Bcol_to_Ccol[Bindices[k]])\n"
CASES = [
    # operations
    ("P25", "fire", [(S, "self.diag_val-diag_val)", "self.diag_val)")], "sub_diag keeps the diagonal value"),
    ("P25", "fire", [(S, "self.diag_val+diag_val)", "self.diag_val + 1)")], "add_diag adds one"),
    ("P25", "fire", [(S, "self.T_small.transpose(copy=copy).tocsr()", "self.T_small.copy()")], "transpose does nothing"),
    ("P25", "fire", [(S, "            return B - self.to_full_mat()", "            return self.to_full_mat() - B")], "rsub reversed"),
    ("P25", "fire", [(S, "            return s2 @ self.to_full_mat()", "            return self.to_full_mat() @ s2")], "rmatmul reversed"),
    ("P25", "fire", [(S, "AmI_small.tocsr() @ BmI_small.tocsr()", "BmI_small.tocsr() @ AmI_small.tocsr()")], "product reversed"),
    ("P25", "fire", [(S, "return (bA + aB).sub_diag(self.diag_val * B.diag_val)", "return (bA + aB).sub_diag(self.diag_val)")], "disjoint product diag"),
    ("P25", "fire", [(S, "return CmI + (bA + aB).sub_diag(self.diag_val * B.diag_val)", "return CmI + (bA + aB).sub_diag(1.0)")], "overlap product diag"),
    ("P25", "fire", [(S, "aB = self.diag_val * B", "aB = B.diag_val * B")], "wrong factor"),
    ("P25", "fire", [(S, "if len(interset) == 0:", "if len(interset) <= 1:")], "one shared row treated as disjoint?"),
    ("P25", "fire", [(S, "if len(interset) == 0:", "if len(Anz_set - Bnz_set) == 0:")], "disjoint test wrong"),
    ("P25", "fire", [(S, "                                                          Cnz_rowcols,", "                                                          self.nz_rowcols,")], "product rows"),
    ("P25", "fire", [(S, "self.nz_rowcols,\n                                   self.diag_val,\n                                   B.T_small.data", "self.nz_rowcols,\n                                   B.diag_val,\n                                   B.T_small.data")], "diag arg swapped"),
    ("P25", "fire", [(S, "self.diag_val*o)", "self.diag_val)")], "mul does not scale diagonal"),
    ("P25", "fire", [(S, "np.union1d(nz_rows,nz_cols)", "np.unique(nz_rows)")], "columns not listed"),
    ("P25", "fire", [(S, "np.union1d(nz_rows,nz_cols)", "np.union1d(nz_rows,nz_rows)")], "columns not listed 2"),
    ("P25", "fire", [(S, "(Tcsr - diag_val * eye(Tcsr.shape[0], format=\"csr\")).nonzero()", "(Tcsr - eye(Tcsr.shape[0], format=\"csr\")).nonzero()")], "unit diagonal assumed"),
    ("P25", "fire", [(S, "np.unique(np.array(nz_rowcols, dtype=np.int32)), #sorted unique", "np.array(nz_rowcols, dtype=np.int32),")], "unsorted rows"),
    ("P25", "fire", [(S, "self.T_small.shape[0], row_sum)", "self.T_small.shape[0], 1.0)")], "row_sum ignored"),
    ("P25", "fire", [(S, "        self.diag_val = row_sum", "        self.diag_val = 1.0")], "row_sum diag"),
    # kernels
    ("P25", "fire", [(K, "            # we need to add the diagonal term of B\n            spa.scatter(Bdiag_val, ic)", "            # we need to add the diagonal term of B\n            spa.scatter(Adiag_val, ic)")], "A-only rows get A's diagonal"),
    ("P25", "fire", [(K, "            spa.scatter(-1*Bdiag_val, ic)", "            spa.scatter(Bdiag_val, ic)")], "sub: sign of diagonal"),
    ("P25", "fire", [(K, SUBV, "                spa.scatter(Bdata[k], Bcol_to_Ccol[Bindices[k]])\n")], "sub adds"),
    ("P25", "fire", [(K, SUBV, "                spa.scatter(-1*Bdata[k], Acol_to_Ccol[Bindices[k]])\n")], "columns of the other"),
    ("P25", "fire", [(K, "    ic_col = 0\n    for k in range(Bsize)", "    for k in range(Bsize)")], "search not restarted"),
    ("P25", "fire", [(K, "        if i in Anz_only:", "        if i in Anz_set:")], "diag added for shared rows"),
    ("P25", "fire", [(K, "    interset = Anz_set.intersection(Bnz_set)\n    Anz_only = Anz_set - interset", "    interset = Anz_set.intersection(Bnz_set)\n    Anz_only = Bnz_set - interset")], "wrong difference"),
    ("P25", "fire", [(K, "        spa.reset(i)", "        spa.reset(0)")], "accumulator not per row"),
    ("P25", "fire", [(K, "    Cnz_rowcols = sorted(list(Cnz_set))", "    Cnz_rowcols = list(Cnz_set)")], "rows unsorted"),
    ("P25", "fire", [(K, "return (size, Cdata, Cindices, Cindptr, Cnz_rowcols, Adiag_val - Bdiag_val)", "return (size, Cdata, Cindices, Cindptr, Cnz_rowcols, Adiag_val + Bdiag_val)")], "sub diag"),
    ("P25", "fire", [(K, "    cdef double[:] Cdata = np.zeros(Adata.shape[0] + Bdata.shape[0] + \\\n                                    Aindptr.shape[0] + Bindptr.shape[0], dtype=np.float64)",
                      "    cdef double[:] Cdata = np.zeros(Adata.shape[0] + Bdata.shape[0], dtype=np.float64)")], "buffer too small"),
    ("P25", "fire", [(K, "    cdef long long Tbig_nnz = T_nnz + size - nonzero_indices.shape[0]", "    cdef long long Tbig_nnz = T_nnz + nonzero_indices.shape[0]")], "rebuild buffer"),
    ("P25", "fire", [(K, "                indptr[row_id+1] = indptr[row_id]+1\n", "                indptr[row_id+1] = indptr[row_id]\n")], "rebuild: pointer of diagonal rows"),
    ("P25", "fire", [(K, "            indices[data_ind:data_ind+num_data_row] = Ts_indices[row_start:row_end]", "            indices[data_ind:data_ind+num_data_row] = T_indices[row_start:row_end]")], "rebuild: small columns"),
    ("P25", "fire", [(K, "            row_id_small_t -= 1\n", "")], "rebuild: row counter"),
    ("P25", "fire", [(K, "                Ts_indices[its] = BtoS[Tf_indices[k]]", "                Ts_indices[its] = Tf_indices[k]")], "from_full: columns not renumbered"),
    ("P25", "fire", [(K, "            BtoS[nz_rowcols[k]] = k", "            BtoS[k] = nz_rowcols[k]")], "from_full: map inverted"),
    ("P25", "fire", [(K, "            tbrow = nz_rowcols[tsrow]\n", "            tbrow = tsrow\n")], "from_full: rows"),
    ("P25", "fire", [(K, "            for j in range(X_indptr[i], X_indptr[i + 1]):\n                X_data[j] /= (sum_/row_sum[i])", "            for j in range(X_indptr[i], X_indptr[i + 1]):\n                X_data[j] /= (sum_*row_sum[i])")], "normalise: factor"),
    ("P25", "fire", [(K, "                X_data[j] /= (sum_/row_sum[i])", "                X_data[j] /= (sum_/row_sum[0])")], "normalise: first target"),
    # accumulator
    ("P25", "fire", [(C, "        this->w[pos] += value;", "        this->w[pos] = value;")], "accumulator overwrites"),
    ("P25", "fire", [(C, "this->b[pos] < this->current_row", "this->b[pos] <= this->current_row")], "accumulator always fresh"),
    ("P25", "fire", [(C, "        this->b[i] = -1;", "        this->b[i] = 0;")], "first row taken as occupied"),
    ("P25", "fire", [(C, "    this->LS.clear();\n", "")], "list not cleared"),
    # scaling
    ("P25", "fire", [(S, "    elif isspmatrix_csc(A):\n        csr_scale_rows", "    elif isspmatrix_csc(A):\n        csr_scale_columns")], "csc scaling"),
    ("P25", "fire", [(S, "        return A @ A.T", "        return A.T @ A")], "gram"),
    # quiet
    ("P25", "quiet", [(S, "            if len(interset) == 0:", "            if not interset:")], "truthiness"),
    ("P25", "quiet", [(S, "            interset = Anz_set.intersection(Bnz_set)", "            interset = Anz_set & Bnz_set")], "operator"),
    ("P25", "quiet", [(S, "        return SparseStochMat.from_small_csr_matrix(self.size,\n                                                      self.T_small - diag_val*eye", "        n = self.size\n        return SparseStochMat.from_small_csr_matrix(n,\n                                                      self.T_small - diag_val*eye")], "local name"),
    ("P25", "quiet", [(K, "        spa.reset(i)", "        spa.reset(ic)")], "row position instead of row"),
    ("P25", "quiet", [(K, "    Cnz_set = Anz_set.union(Bnz_set)", "    Cnz_set = Anz_set | Bnz_set")], "union operator"),
    ("P25", "quiet", [(K, "    Anz_only = Anz_set - interset", "    Anz_only = Anz_set - Bnz_set")], "difference"),
    ("P25", "quiet", [(K, "        if i in Bnz_only:\n", "        if i in Cnz_set and i not in Anz_set:\n")], "condition rewritten"),
    ("P25", "quiet", [(K, "        Cindptr[ic+1] = Cindptr[ic] + nzi", "        Cindptr[ic+1] = kc")], "pointer from cursor"),
    ("P25", "quiet", [(K, "            row_start = T_indptr[row_id_small_t]    \n            row_end = T_indptr[row_id_small_t+1]  \n            \n            num_data_row = row_end - row_start\n            \n            data[data_ind:(data_ind+num_data_row)] = T_data[row_start:row_end]\n            indices[data_ind:data_ind+num_data_row] = Ts_indices[row_start:row_end]\n",
                       "            row_start = T_indptr[row_id_small_t]\n            row_end = T_indptr[row_id_small_t+1]\n            num_data_row = row_end - row_start\n            for k in range(row_start, row_end):\n                data[data_ind + k - row_start] = T_data[k]\n                indices[data_ind + k - row_start] = Ts_indices[k]\n")], "slice copy as loop"),
    ("P25", "quiet", [(C, "    if (this->b[pos] < this->current_row) {", "    if (this->b[pos] != this->current_row) {")], "not equal"),
    ("P25", "quiet", [(C, "    if (this->b[pos] < this->current_row) {\n        this->w[pos] = value;", "    if (b[pos] < current_row) {\n        w[pos] = 0.0;\n        w[pos] += value;")], "clear then add"),
    ("P25", "quiet", [(K, "                X_data[j] /= (sum_/row_sum[i])", "                X_data[j] = X_data[j]*row_sum[i]/sum_")], "multiplication"),
]
