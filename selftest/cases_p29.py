"""P29: fire = behaviour broken, quiet = behaviour kept"""
PX, TN = "parallel_expm.py", "temporal_network.py"
CASES = [
    ("P29", "fire", [(PX, "initargs=(data, indices, indptr, N)) as p:", "initargs=(data, indptr, indices, N)) as p:")], "initargs in another order"),
    ("P29", "fire", [(PX, "T = vstack(res).T.tocsr()", "T = vstack(res).tocsr()")], "columns as rows"),
    ("P29", "fire", [(PX, "    delta_i[i] = 1.0\n", "    delta_i[i-1] = 1.0\n")], "another unit vector"),
    ("P29", "fire", [(PX, "[(i,thresh_ratio) for i in range(N)]", "[(i,thresh_ratio) for i in range(N-1)]")], "a column missing"),
    ("P29", "fire", [(PX, "small_comps, = np.nonzero(comp_sizes < 1000)", "small_comps, = np.nonzero(comp_sizes <= 998)")], "components of 999 nodes lost"),
    ("P29", "fire", [(PX, "        res = p.map(_expm_worker, [cmp_indices[c] for c in small_comps])", "        res = p.map(_expm_worker, [cmp_indices[c] for c in large_comps])")], "the wrong components"),
    ("P29", "fire", [(PX, "    for c, sub_expm in zip(small_comps, res):", "    for c, sub_expm in enumerate(res):")], "small components under their position"),
    ("P29", "fire", [(PX, "        indptr[row] = data_ind\n\n        data_ind += comp_sizes[cmp]\n", "        data_ind += comp_sizes[cmp]\n        indptr[row] = data_ind\n")], "pointer after the row"),
    ("P29", "fire", [(PX, "    if not isspmatrix_csc(A):\n        A = csc_matrix(A)\n", "")], "csr arrays read as csc"),
    ("P29", "fire", [(PX, "                                                   normalize_rows=False,\n", "                                                   normalize_rows=True,\n")], "blocks normalised"),
    ("P29", "fire", [(PX, "                                                   thresh_ratio=None,\n", "                                                   thresh_ratio=thresh_ratio,\n")], "blocks thresholded"),
    ("P29", "fire", [(PX, "    return expm(var_dict[\"A\"][cmp_ind,:][:,cmp_ind]).toarray()", "    return expm(var_dict[\"A\"][:cmp_ind.size,:][:,:cmp_ind.size]).toarray()")], "the first rows instead of the component's"),
    ("P29", "fire", [(PX, "        expmA.data[expmA.data<expmA.data.max()/thresh_ratio] = 0.0\n", "        expmA.data[expmA.data<thresh_ratio] = 0.0\n")], "absolute threshold"),
    ("P29", "fire", [(PX, "    if normalize_rows:\n        inplace_csr_row_normalize(expmA)\n", "    inplace_csr_row_normalize(expmA)\n")], "always normalised"),
    ("P29", "fire", [(TN, "        sub_expm_row, = np.where(cmp_indices[cmp] == row)\n", "        sub_expm_row, = np.where(cmp_indices[cmp] == cmp)\n")], "row of another node"),
    ("P29", "fire", [(TN, "        sub_expm_row, = np.where(cmp_indices[cmp] == row)\n", "        sub_expm_row = row % comp_sizes[cmp]\n")], "assumes contiguous components"),
    ("P29", "fire", [(TN, "    cmp_indices = [(comp_labels == cmp).nonzero()[0] for \\\n                          cmp in range(n_comp)]\n", "    cmp_indices = [(comp_labels == cmp).nonzero()[0] for \\\n                          cmp in range(1, n_comp)]\n")], "a component skipped"),
    ("P29", "fire", [(TN, "        subnets_expms.append(expm(A[cmp_ind,:][:,cmp_ind]).toarray())", "        subnets_expms.append(expm(A[cmp_ind,:][:,cmp_ind].T).toarray())")], "transposed block"),
    ("P29", "fire", [(TN, "cmp_degs/cmp_degs.sum()", "cmp_degs/degs.sum()")], "normalised by the whole network"),
    ("P29", "fire", [(TN, "        degs = np.diff(T.indptr)", "        degs = T.indptr[1:]")], "not the degrees"),
    ("P29", "fire", [(TN, "    T.eliminate_zeros()\n", "")], "stored zeros count"),
    ("P29", "fire", [(TN, "n_comp, comp_labels = connected_components(T,directed=False)", "n_comp, comp_labels = connected_components(T,directed=True,connection='strong')")], "strong components"),
    ("P29", "quiet", [(TN, "        indptr[row] = data_ind\n\n        data_ind += comp_sizes[cmp]\n\n    indptr[num_nodes] = data_ind\n", "        data_ind += comp_sizes[cmp]\n        indptr[row+1] = data_ind\n")], "pointer closed in the loop"),
    ("P29", "quiet", [(TN, "        sub_expm_row, = np.where(cmp_indices[cmp] == row)\n", "        sub_expm_row = np.searchsorted(cmp_indices[cmp], row)\n")], "searchsorted"),
    ("P29", "quiet", [(TN, "    subnets_expms = []\n    for i, cmp_ind in enumerate(cmp_indices):", "    subnets_expms = []\n    for i in range(n_comp):\n        cmp_ind = cmp_indices[i]")], "loop over the numbers"),
    ("P29", "quiet", [(PX, "large_comps, = np.nonzero(comp_sizes >= 1000)", "large_comps = np.flatnonzero(comp_sizes > 999)")], "another spelling of large"),
    ("P29", "quiet", [(PX, "    for c, sub_expm in zip(small_comps, res):\n        subnets_expms[c] = sub_expm\n", "    for j, c in enumerate(small_comps):\n        subnets_expms[c] = res[j]\n")], "enumerate"),
    ("P29", "quiet", [(PX, "initargs=(data, indices, indptr, N)) as p:\n        res = p.map(_worker, [(i,thresh_ratio) for i in range(N)])", "initargs=(data, indices, indptr, N)) as p:\n        jobs = []\n        for i in range(N):\n            jobs.append((i, thresh_ratio))\n        res = p.map(_worker, jobs)")], "jobs in a loop"),
    ("P29", "quiet", [(TN, "        cmp_degs = degs[cmp_to_indices[cmp]]\n        data[data_ind:data_ind+comp_sizes[cmp]] = \\\n                                                cmp_degs/cmp_degs.sum()\n        indices[data_ind:data_ind+comp_sizes[cmp]] = \\\n                        cmp_to_indices[cmp]\n", "        members = cmp_to_indices[cmp]\n        end = data_ind + comp_sizes[cmp]\n        cmp_degs = degs[members]\n        indices[data_ind:end] = members\n        data[data_ind:end] = cmp_degs/np.sum(cmp_degs)\n")], "names for the pieces"),
]
