N = "temporal_network.py"
MASK = '''    nonzerosum_rowcols = ~np.logical_and(L.getnnz(1)==0,
                                        L.getnnz(0)==0)

    nonzero_indices, = (nonzerosum_rowcols).nonzero()

    return L[nonzerosum_rowcols][:,nonzerosum_rowcols], nonzero_indices, L.shape[0]
'''
CM = '''                    nonzerosum_rowcols = ~np.logical_and(Lcsr.getnnz(1)==0,
                                                         Lcsr.getnnz(0)==0)

                    nz_rowcols, = (nonzerosum_rowcols).nonzero()
'''
EXP = '''            n_comp, comp_labels = connected_components(L_small,directed=False)
            if n_comp > 1 :
                T_small = expm_func(n_comp=n_comp,
                                    comp_labels=comp_labels)
            else:
                T_small = expm(-fact*L_small).tocsr()
        else:
            T_small = expm(-fact*L_small).tocsr()

    return SparseStochMat(size, T_small.data, T_small.indices,
                            T_small.indptr, nz_inds)
'''
LIN = '''    return SparseStochMat(T_ss.size, Tapprox_small.data, Tapprox_small.indices,
                            Tapprox_small.indptr, T_ss.nz_rowcols)
'''
STA = '''    T_ss = SparseStochMat.from_full_csr_matrix(T.tocsr())

    Pi_small = compute_stationary_transition(T_ss.T_small)

    return SparseStochMat(T_ss.size, Pi_small.data, Pi_small.indices,
                            Pi_small.indptr, T_ss.nz_rowcols)
'''
PI = "        Pi_small = SparseStochMat.from_full_csr_matrix(Pi, nz_rowcols=nz_rowcols).T_small\n"
GUARD = '''    if L.getnnz() == 0: #zero matrix
        # return identity
        return SparseStochMat.create_diag(L.shape[0])
'''


def R(old, a, b):
    assert a in old
    return [(N, old, old.replace(a, b))]


def c(kind, ed, label):
    return ("P35", kind, ed, label)


CASES = [
 c("fire", R(MASK, "logical_and", "logical_or"), "only both"),
 c("fire", R(MASK, "L.getnnz(0)==0", "L.getnnz(1)==0"), "rows only"),
 c("fire", R(MASK, "L.getnnz(1)==0,", "L.getnnz(1)<=1,"), "single entry dropped"),
 c("fire", R(MASK, "~np.logical_and(L.getnnz(1)==0,\n                                        L.getnnz(0)==0)", "L.getnnz(1) > 0"), "absorbing nodes lost"),
 c("fire", R(MASK, "~np.logical_and(L.getnnz(1)==0,\n                                        L.getnnz(0)==0)", "(L.getnnz(1) > 0) & (L.getnnz(0) > 0)"), "and"),
 c("fire", R(MASK, "L.getnnz(1)==0,\n                                        L.getnnz(0)==0", "np.asarray(L.sum(1)).ravel()==0,\n                                        np.asarray(L.sum(0)).ravel()==0"), "sums"),
 c("fire", R(MASK, "L.shape[0]\n", "L[nonzerosum_rowcols][:,nonzerosum_rowcols].shape[0]\n"), "small size"),
 c("fire", R(MASK, "L[nonzerosum_rowcols][:,nonzerosum_rowcols]", "L[nonzerosum_rowcols][:,L.getnnz(0)>0]"), "other columns"),
 c("quiet", R(MASK, "~np.logical_and(L.getnnz(1)==0,\n                                        L.getnnz(0)==0)", "np.logical_or(L.getnnz(axis=1) > 0, L.getnnz(axis=0) != 0)"), "or"),
 c("quiet", R(MASK, "~np.logical_and(L.getnnz(1)==0,\n                                        L.getnnz(0)==0)", "(L.getnnz(1) + L.getnnz(0)) > 0"), "sum of counts"),
 c("quiet", R(MASK, "~np.logical_and(L.getnnz(1)==0,\n                                        L.getnnz(0)==0)", "(L.getnnz(1) > 0) | (L.getnnz(0) > 0)"), "bar"),
 c("quiet", R(MASK, "nonzero_indices, = (nonzerosum_rowcols).nonzero()", "nonzero_indices = np.where(nonzerosum_rowcols)[0]"), "where"),
 c("quiet", R(MASK, "nonzero_indices, = (nonzerosum_rowcols).nonzero()", "nonzero_indices = np.flatnonzero(nonzerosum_rowcols)"), "flatnonzero"),
 c("quiet", R(MASK, "L[nonzerosum_rowcols][:,nonzerosum_rowcols]", "L[nonzero_indices,:][:,nonzero_indices]"), "by index"),
 c("quiet", R(MASK, "L[nonzerosum_rowcols][:,nonzerosum_rowcols]", "L[np.ix_(nonzero_indices, nonzero_indices)]"), "ix_"),
 c("quiet", R(MASK, "L.shape[0]\n", "L.shape[1]\n"), "square"),
 c("fire", R(CM, "logical_and", "logical_or"), "caller only both"),
 c("fire", R(CM, "Lcsr.getnnz(1)==0", "Lcsr.getnnz(0)==0"), "caller columns"),
 c("fire", R(CM, "Lcsr.getnnz(1)==0,", "Lcsr.getnnz(1)==1,"), "caller wrong count"),
 c("fire", R(CM, "Lcsr.getnnz(1)==0,", "Lcsr.getnnz(1)<0,"), "caller keeps all"),
 c("quiet", R(CM, "~np.logical_and(Lcsr.getnnz(1)==0,\n                                                         Lcsr.getnnz(0)==0)", "(Lcsr.getnnz(1) > 0) | (Lcsr.getnnz(0) > 0)"), "caller bar"),
 c("quiet", [(N, CM, "                    _, nz_rowcols, _ = remove_nnz_rowcol(Lcsr)\n")], "caller helper"),
 c("quiet", [(N, CM, "                    nz_rowcols = remove_nnz_rowcol(self.laplacians[k])[1]\n")], "caller helper, other format"),
 c("fire", [(N, CM, "                    nz_rowcols = remove_nnz_rowcol(self.laplacians[k-1])[1]\n")], "indices of another interval"),
 c("fire", R(GUARD, "L.getnnz() == 0", "L.getnnz() <= 1"), "one entry is identity"),
 c("fire", R(GUARD, "L.getnnz() == 0", "L.getnnz() <= 2"), "two entries are identity"),
 c("quiet", R(GUARD, "L.getnnz() == 0", "L.nnz == 0"), "nnz"),
 c("quiet", R(GUARD, "L.getnnz() == 0", "not L.getnnz()"), "not"),
 c("fire", R(EXP, "            T_small = expm(-fact*L_small).tocsr()\n\n", "            T_small = expm(-fact*L_small)\n\n"), "by columns"),
 c("fire", R(EXP, "                T_small = expm(-fact*L_small).tocsr()\n        else", "                T_small = expm(-fact*L_small).tocsc()\n        else"), "tocsc"),
 c("fire", R(EXP, "connected_components(L_small,directed=False)", "connected_components(L_small,directed=True,connection='strong')"), "strong components"),
 c("fire", R(EXP, "connected_components(L_small,directed=False)", "connected_components(L,directed=False)"), "components of the full matrix"),
 c("fire", R(EXP, "SparseStochMat(size,", "SparseStochMat(L_small.shape[0],"), "size of the small"),
 c("fire", R(EXP, "T_small.data, T_small.indices,", "T_small.data, L_small.indices,"), "indices of another"),
 c("fire", [(N, "                            A=-fact*L_small,\n                            nproc=nproc,\n                            thresh_ratio=thresh_ratio,\n                            normalize_rows=normalize_rows)\n", "                            A=-fact*L_small,\n                            nproc=nproc,\n                            thresh_ratio=thresh_ratio)\n")], "rows not as asked"),
 c("fire", [(N, "        expm_func = partial(compute_subspace_expm,\n                            A=-fact*L_small,\n                            thresh_ratio=thresh_ratio,\n", "        expm_func = partial(compute_subspace_expm,\n                            A=-fact*L_small,\n                            thresh_ratio=None,\n")], "threshold lost"),
 c("quiet", R(EXP, "connected_components(L_small,directed=False)", "connected_components(L_small,directed=True,connection='weak')"), "weak"),
 c("quiet", R(EXP, "connected_components(L_small,directed=False)", "connected_components(L_small)"), "default"),
 c("quiet", R(EXP, "T_small = expm_func(n_comp=n_comp,\n                                    comp_labels=comp_labels)", "T_small = expm_func()"), "components found inside"),
 c("quiet", R(EXP, "SparseStochMat(size,", "SparseStochMat(L.shape[0],"), "size of L"),
 c("quiet", R(EXP, "SparseStochMat(size, T_small.data, T_small.indices,\n                            T_small.indptr, nz_inds)", "_pack(size, T_small, nz_inds)") + [(N, "def sparse_lapl_expm(", "def _pack(size, M, nz):\n    return SparseStochMat(size, M.data, M.indices, M.indptr, nz)\n\n\ndef sparse_lapl_expm(")], "helper"),
 c("quiet", R(EXP, "            T_small = expm(-fact*L_small).tocsr()\n\n", "            T_small = csr_matrix(expm(-fact*L_small))\n\n"), "csr_matrix"),
 c("fire", R(LIN, "Tapprox_small.data, Tapprox_small.indices,", "Tapprox_small.data, T_ss.T_small.indices,"), "parts of two matrices"),
 c("fire", R(LIN, "T_ss.size", "T_ss.T_small.shape[0]"), "lin small size"),
 c("fire", [(N, PI, "        Pi_small = SparseStochMat.from_full_csr_matrix(Pi).T_small\n")], "limit with its own rows"),
 c("fire", [(N, PI, "        Pi_small = Pi\n")], "full limit"),
 c("fire", [(N, "    T_ss = SparseStochMat.from_full_csr_matrix(T, nz_rowcols=nz_rowcols)\n", "    T_ss = SparseStochMat.from_full_csr_matrix(T)\n")], "indices dropped"),
 c("fire", [(N, "                                        Pi=Pi_small,\n                                        t_s=t_s)\n", "                                        Pi=Pi_small)\n")], "t_s dropped"),
 c("quiet", [(N, PI, "        Pi_small = SparseStochMat.from_full_csr_matrix(Pi, T_ss.nz_rowcols).T_small\n")], "same rows"),
 c("quiet", [(N, "        Pi_small = compute_stationary_transition(T_ss.T_small)\n    elif", "        Pi_small = None\n    elif")], "computed inside"),
 c("quiet", R(LIN, "T_ss.size", "T.shape[0]"), "size of T"),
 c("fire", R(STA, "T.tocsr()", "T.tocsc()"), "stationary by columns"),
 c("fire", R(STA, "compute_stationary_transition(T_ss.T_small)", "compute_stationary_transition(T)"), "limit of the full matrix"),
 c("fire", R(STA, "T_ss.size", "T_ss.T_small.shape[0]"), "stationary small size"),
 c("quiet", R(STA, "from_full_csr_matrix(T.tocsr())", "from_full_csr_matrix(csr_matrix(T))"), "csr_matrix"),
]

OLD_FUNC = '''    if nproc == 1:
        expm_func = partial(compute_subspace_expm,
                            A=-fact*L_small,
                            thresh_ratio=thresh_ratio,
                            normalize_rows=normalize_rows)

    else:
        expm_func = partial(compute_subspace_expm_parallel,
                            A=-fact*L_small,
                            nproc=nproc,
                            thresh_ratio=thresh_ratio,
                            normalize_rows=normalize_rows)
'''
CASES += [
 c("quiet", [(N, OLD_FUNC, '''    A = -fact*L_small
    options = dict(thresh_ratio=thresh_ratio, normalize_rows=normalize_rows)
    if nproc == 1:
        expm_func = partial(compute_subspace_expm, A=A, **options)
    else:
        expm_func = partial(compute_subspace_expm_parallel, A=A, nproc=nproc, **options)
''')], "options in a dict"),
 c("quiet", [(N, OLD_FUNC, '''    def expm_func(n_comp, comp_labels):
        if nproc == 1:
            return compute_subspace_expm(-fact*L_small, n_comp, comp_labels, thresh_ratio, normalize_rows)
        return compute_subspace_expm_parallel(-fact*L_small, n_comp, comp_labels, thresh_ratio=thresh_ratio,
                                              normalize_rows=normalize_rows, nproc=nproc)
''')], "inner function"),
 c("quiet", R(EXP, '''            n_comp, comp_labels = connected_components(L_small,directed=False)
            if n_comp > 1 :
                T_small = expm_func(n_comp=n_comp,
                                    comp_labels=comp_labels)
            else:
                T_small = expm(-fact*L_small).tocsr()
        else:
            T_small = expm(-fact*L_small).tocsr()
''', '''            n_comp, comp_labels = connected_components(L_small,directed=False)
        else:
            n_comp = 1
        if n_comp > 1 :
            T_small = expm_func(n_comp=n_comp,
                                comp_labels=comp_labels)
        else:
            T_small = expm(-fact*L_small).tocsr()
'''), "one plain exponential"),
 c("quiet", [(N, GUARD, GUARD.replace("if L.getnnz() == 0: #zero matrix", "n_entries = L.getnnz()\n    if n_entries < 1:"))], "less than one"),
 c("quiet", [(N, '''    if Pi is None:
        Pi_small = compute_stationary_transition(T_ss.T_small)
    elif isinstance(Pi, SparseStochMat):
        Pi_small = Pi.T_small
    elif isinstance(Pi, csr_matrix):
        Pi_small = SparseStochMat.from_full_csr_matrix(Pi, nz_rowcols=nz_rowcols).T_small
    else:
        raise TypeError("Pi must be a csr or SparseStochMat.")
''', '''    Pi_small = _small_limit(Pi, T_ss, nz_rowcols)
'''), (N, "def sparse_lin_approx(", '''def _small_limit(Pi, T_ss, nz_rowcols):
    if isinstance(Pi, SparseStochMat):
        return Pi.T_small
    if isinstance(Pi, csr_matrix):
        return SparseStochMat.from_full_csr_matrix(Pi, nz_rowcols=nz_rowcols).T_small
    if Pi is not None:
        raise TypeError("Pi must be a csr or SparseStochMat.")
    return compute_stationary_transition(T_ss.T_small)


def sparse_lin_approx(''')], "limit in a helper"),
 c("quiet", R(STA, '''    T_ss = SparseStochMat.from_full_csr_matrix(T.tocsr())

    Pi_small = compute_stationary_transition(T_ss.T_small)
''', '''    T_csr = T.tocsr()
    T_ss = SparseStochMat.from_full_csr_matrix(T_csr)
    small = T_ss.T_small
    Pi_small = compute_stationary_transition(small)
'''), "named steps"),
 c("fire", [(N, OLD_FUNC, OLD_FUNC.replace("A=-fact*L_small,\n                            nproc=nproc,\n                            thresh_ratio=thresh_ratio,", "A=-fact*L_small,\n                            nproc=nproc,"))], "threshold lost with processes"),
 c("fire", R(MASK, "nonzero_indices, = (nonzerosum_rowcols).nonzero()", "nonzero_indices, = (L.getnnz(1) > 0).nonzero()"), "indices of another mask"),
]
