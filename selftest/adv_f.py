"""independent bugs written from the properties' text (batch f): sparse kernels"""
S = "_cython_sparse_stoch.pyx"
CASES = [
 ("P25", S, "        if i in Anz_only:\n            # we need to add the diagonal term of B\n            spa.scatter(Bdiag_val, ic)\n", "        if i in Anz_only and Bdiag_val > 0.0:\n            # we need to add the diagonal term of B\n            spa.scatter(Bdiag_val, ic)\n"),
 ("P25", S, "            spa.scatter(-1*Bdiag_val, ic)\n", "            spa.scatter(-1*Bdiag_val, i)\n"),
 ("P25", S, "            nzi += 1\n            kc += 1\n", "            if spa.w[indnz] != 0.0:\n                nzi += 1\n                kc += 1\n"),   # equivalent? last entry overwritten by the next: still the same matrix
 ("P25", S, "        for indnz in spa.LS:\n            Cindices[kc] = indnz\n            Cdata[kc] = spa.w[indnz]\n            nzi += 1\n            kc += 1\n", "        for indnz in spa.LS:\n            if spa.w[indnz] > 0.0:\n                Cindices[kc] = indnz\n                Cdata[kc] = spa.w[indnz]\n                nzi += 1\n                kc += 1\n", 1),
 ("P25", S, "    Cnz_rowcols = sorted(list(Cnz_set))\n", "    Cnz_rowcols = sorted(Anz_only) + sorted(Bnz_set)\n"),
 ("P25", S, "        if i in Bnz_set:\n            for k in range(Bindptr[ib],Bindptr[ib+1]):\n                spa.scatter(Bdata[k], Bcol_to_Ccol[Bindices[k]])\n            ib += 1\n", "        if i in Bnz_set:\n            for k in range(Bindptr[ib],Bindptr[ib+1]):\n                spa.scatter(Bdata[k], Bcol_to_Ccol[Bindices[k]])\n                ib += 1\n"),
 ("P25", S, "            if diag_val == 0.0:\n                # add an empty row\n", "            if diag_val <= 0.0:\n                # add an empty row\n"),
 ("P25", S, "    if diag_val == 0:\n        Tbig_nnz = T_nnz\n", "    if diag_val < 1e-12:\n        Tbig_nnz = T_nnz\n"),
 ("P25", S, "                indptr[row_id+1] = indptr[row_id]+1\n                \n                data_ind += 1                \n", "                indptr[row_id+1] = data_ind\n                \n                data_ind += 1                \n"),
 ("P25", S, "    for k in range(T_size):\n        nz_ind_set.insert(nonzero_indices[k])\n", "    for k in range(1, T_size):\n        nz_ind_set.insert(nonzero_indices[k])\n"),
 ("P25", S, "        Ts_indices[k] = nonzero_indices[T_indices[k]]\n", "        Ts_indices[k] = nonzero_indices[0] + T_indices[k]\n"),
 ("P25", S, "            # do not normalize empty rows (can happen if CSR is not pruned\n            # correctly)\n            continue\n", "            continue\n        if sum_ < 1e-8:\n            continue\n"),
 ("P25", S, "                X_data[j] -= sum_/(X_indptr[i + 1]-X_indptr[i])\n", "                X_data[j] -= sum_/n_row\n"),
 ("P25", S, "                X_data[j] /= (sum_/row_sum[i])  \n", "                X_data[j] /= (sum_/row_sum[0])  \n"),
 ("P25", S, "            # do not normalize empty rows (can happen if CSR is not pruned\n            # correctly)\n            continue\n", "            break\n", 1),
 ("P25", S, "            Ts_nnz += Tf_indptr[tbrow+1] - Tf_indptr[tbrow]\n", "            Ts_nnz = max(Ts_nnz, Tf_indptr[tbrow+1])\n"),
 ("P25", S, "            BtoS[nz_rowcols[k]] = k\n", "            BtoS[k] = nz_rowcols[k]\n"),
 ("P25", S, "        return (Tf_indptr.shape[0] - 1, Ts_data, Ts_indices, Ts_indptr,\n", "        return (Ts_indptr.shape[0] - 1, Ts_data, Ts_indices, Ts_indptr,\n"),
 ("P25", S, "            for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):\n                Ts_data[its] = Tf_data[k]\n", "            for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):\n                if Tf_data[k] < 0:\n                    continue\n                Ts_data[its] = Tf_data[k]\n"),
 ("P21", S, "            if pt > 0.0:\n", "            if pt > 1e-12:\n"),
 ("P21", S, "            if pt > 0.0:\n", "            if row == col or pt > 0.0:\n"),  # equivalent
 ("P21+P22", S, "            AtoB[idxs_array[ka]] = kb\n", "            AtoB[ka] = kb\n"),
 ("P21+P22", S, "            Brows.push_back(AtoB[row])\n            Bcols.push_back(AtoB[col])\n", "            Brows.push_back(AtoB[col])\n            Bcols.push_back(AtoB[row])\n"),
 ("P21+P22", S, "            Bdata.push_back(Adata[k])\n", "            if AtoB[row] <= AtoB[col]:\n                Bdata.push_back(Adata[k])\n"),
 ("P21+P22", S, "    for row in range(Aindptr.shape[0]-1):\n", "    for row in range(idxs_array.shape[0]-1):\n"),
 ("P21", S, "            if col_set.count(Aindices[j]):\n                s += Adata[j]\n", "            if col_set.count(Aindices[j]) and Aindices[j] != row:\n                s += Adata[j]\n"),
 ("P20", S, "    while j < PTindptr[k+1] and PTindices[j] < k:\n        j += 1\n    if j < PTindptr[k+1] and PTindices[j] == k:\n        s += PTdata[j]\n", "    while j < PTindptr[k+1]-1 and PTindices[j] < k:\n        j += 1\n    if j < PTindptr[k+1]-1 and PTindices[j] == k:\n        s += PTdata[j]\n"),
 ("P20", S, "    while j < PTindptr[k+1] and PTindices[j] < k:\n", "    while j < PTindptr[k+1] and PTindices[j] <= k:\n"),
 ("P20", S, "            s += PTcscdata[j]\n", "            s += PTdata[j]\n"),
 ("P20", S, "        s -= p1[idx[i]]*p2[k]\n    s -= p1[k]*p2[k]\n", "        s -= p1[idx[i]]*p2[k]\n    s -= p1[k]*p1[k]\n"),
 ("P20", S, "    for i in range(num_idx):\n        s += p1[k]*p2[idx[i]]\n        s += p1[idx[i]]*p2[k]\n", "    for i in range(num_idx):\n        if idx[i] != k:\n            s += p1[k]*p2[idx[i]]\n        s += p1[idx[i]]*p2[k]\n"),
 ("P20", S, "    for i in range(num_idx):\n        s += p1[k]*p2[idx[i]]\n        s += p1[idx[i]]*p2[k]\n", "    for i in range(num_idx):\n        s += 2*p1[k]*p2[idx[i]]\n"),
 ("P20", S, "    for i in range(num_idx):\n        idx_set.insert(idx[i])\n    \n\n    for j in range(PTindptr[k],PTindptr[k+1]):\n        if idx_set.count(PTindices[j]):\n            s -= PTdata[j]\n", "    for i in range(num_idx):\n        if idx[i] != k:\n            idx_set.insert(idx[i])\n    \n\n    for j in range(PTindptr[k],PTindptr[k+1]):\n        if idx_set.count(PTindices[j]):\n            s -= PTdata[j]\n"),
]
