"""Rewritings of the compact computations and of the written matrices that keep the behaviour."""
F = "temporal_network.py"
BR = '''    if nproc == 1:
        expm_func = partial(compute_subspace_expm,
                            A=-fact*L_small,
                            thresh_ratio=thresh_ratio,
                            normalize_rows=normalize_rows)

    else:
        expm_func = partial(compute_subspace_expm_parallel,
                            A=-fact*L_small,
                            nproc=nproc,
                            thresh_ratio=thresh_ratio,
                            normalize_rows=normalize_rows)


    if dense_expm:
        T_small = csr_matrix(expm(-fact*L_small.toarray()))
    else:

        # for large networks, try subspace expm
        L_small.eliminate_zeros()
        if L_small.shape[0] >= 1000:
            n_comp, comp_labels = connected_components(L_small,directed=False)
            if n_comp > 1 :
                T_small = expm_func(n_comp=n_comp,
                                    comp_labels=comp_labels)
            else:
                T_small = expm(-fact*L_small).tocsr()
        else:
            T_small = expm(-fact*L_small).tocsr()

    return SparseStochMat(size, T_small.data, T_small.indices,
                            T_small.indptr, nz_inds)
'''
PI = '''    if Pi is None:
        Pi_small = compute_stationary_transition(T_ss.T_small)
    elif isinstance(Pi, SparseStochMat):
        Pi_small = Pi.T_small
    elif isinstance(Pi, csr_matrix):
        Pi_small = SparseStochMat.from_full_csr_matrix(Pi, nz_rowcols=nz_rowcols).T_small
    else:
        raise TypeError("Pi must be a csr or SparseStochMat.")
'''
SVT = '''                if round_zeros:
                    T = self.T[lamda].copy()
                    T.set_to_zeroes(tol)
                else:
                    T = self.T[lamda]
                save_dict["T"][lamda] = T.to_dict()
'''
CASES = [
 ("P35", "quiet", [(F, BR, '''    if dense_expm:
        T_small = csr_matrix(expm(-fact*L_small.toarray()))
    else:
        T_small = _sparse_expm(L_small, fact, nproc, thresh_ratio, normalize_rows)

    return SparseStochMat(size, T_small.data, T_small.indices,
                            T_small.indptr, nz_inds)


def _sparse_expm(L_small, fact, nproc, thresh_ratio, normalize_rows):
    """exponential of a sparse Laplacian, by components when it is large"""
    L_small.eliminate_zeros()
    if L_small.shape[0] < 1000:
        return expm(-fact*L_small).tocsr()
    n_comp, comp_labels = connected_components(L_small, directed=False)
    if n_comp <= 1:
        return expm(-fact*L_small).tocsr()
    kwargs = dict(A=-fact*L_small, n_comp=n_comp, comp_labels=comp_labels,
                  thresh_ratio=thresh_ratio, normalize_rows=normalize_rows)
    if nproc == 1:
        return compute_subspace_expm(**kwargs)
    return compute_subspace_expm_parallel(nproc=nproc, **kwargs)
''')], "helper with early returns"),
 ("P35", "quiet", [(F, BR, '''    scaled = -fact*L_small
    common = {"thresh_ratio": thresh_ratio, "normalize_rows": normalize_rows}
    if nproc != 1:
        common["nproc"] = nproc
    func = compute_subspace_expm if nproc == 1 else compute_subspace_expm_parallel

    T_small = None
    if dense_expm:
        T_small = csr_matrix(expm(scaled.toarray()))
    else:
        L_small.eliminate_zeros()
        if L_small.shape[0] >= 1000:
            n_comp, comp_labels = connected_components(L_small,directed=False)
            if n_comp > 1 :
                T_small = func(-fact*L_small, n_comp=n_comp, comp_labels=comp_labels, **common)
        if T_small is None:
            T_small = expm(-fact*L_small).tocsr()

    return SparseStochMat(size=size, data=T_small.data, indices=T_small.indices,
                          indptr=T_small.indptr, nz_rowcols=nz_inds)
''')], "None marks not yet computed"),
 ("P35", "quiet", [(F, BR, BR.replace("    return SparseStochMat(size, T_small.data, T_small.indices,\n                            T_small.indptr, nz_inds)\n", '''    return _compact(size, T_small, nz_inds)


def _compact(size, small, nz):
    parts = (small.data, small.indices, small.indptr)
    return SparseStochMat(size, *parts, nz)
'''))], "builder helper"),
 ("P35", "quiet", [(F, PI, '''    Pi_small = _restrict_stationary(Pi, T_ss, nz_rowcols)
'''), (F, "def sparse_stationary_trans(T):\n", '''def _restrict_stationary(Pi, T_ss, nz_rowcols):
    if Pi is None:
        return compute_stationary_transition(T_ss.T_small)
    if isinstance(Pi, csr_matrix):
        Pi = SparseStochMat.from_full_csr_matrix(Pi, nz_rowcols=nz_rowcols)
    if not isinstance(Pi, SparseStochMat):
        raise TypeError("Pi must be a csr or SparseStochMat.")
    return Pi.T_small


def sparse_stationary_trans(T):
''')], "stationary helper"),
 ("P35", "quiet", [(F, PI, '''    if Pi is not None and not isinstance(Pi, (SparseStochMat, csr_matrix)):
        raise TypeError("Pi must be a csr or SparseStochMat.")
    if Pi is None:
        Pi_small = compute_stationary_transition(T_ss.T_small)
    else:
        Pi_ss = Pi if isinstance(Pi, SparseStochMat) else SparseStochMat.from_full_csr_matrix(Pi, nz_rowcols=nz_rowcols)
        Pi_small = Pi_ss.T_small
''')], "guard first"),
 ("P35", "quiet", [(F, '''    T_ss = SparseStochMat.from_full_csr_matrix(T.tocsr())

    Pi_small = compute_stationary_transition(T_ss.T_small)
''', '''    full = T.tocsr()
    T_ss = SparseStochMat.from_full_csr_matrix(full)
    small = T_ss.T_small
    Pi_small = compute_stationary_transition(small)
''')], "temps"),
 ("P05", "quiet", [(F, SVT, '''                T = self._rounded(self.T[lamda], tol) if round_zeros else self.T[lamda]
                save_dict["T"][lamda] = T.to_dict()
'''), (F, "    def save_T(self, filename,", '''    @staticmethod
    def _rounded(T, tol):
        out = T.copy()
        if isinstance(out, SparseStochMat):
            out.set_to_zeroes(tol)
        else:
            set_to_zeroes(out, tol)
        return out

    def save_T(self, filename,''')], "rounded helper"),
 ("P05", "quiet", [(F, SVT, '''                T = self.T[lamda]
                if round_zeros:
                    T = T.copy()
                    T.set_to_zeroes(tol=tol)
                save_dict["T"][lamda] = T.to_dict()
''')], "rebinding"),
 ("P05", "quiet", [(F, SVT, '''                T = deepcopy(self.T[lamda]) if round_zeros else self.T[lamda]
                if round_zeros:
                    T.set_to_zeroes(tol)
                entry = T.to_dict()
                save_dict["T"].update({lamda: entry})
'''), (F, "import numpy as np\n", "import numpy as np\nfrom copy import deepcopy\n")], "update"),
 ("P05", "fire", [(F, SVT, '''                if round_zeros:
                    T = self.T[lamda].copy()
                    T.set_to_zeroes(tol)
                else:
                    T = self.T[lamda]
                save_dict["T"][lamda] = self.T[lamda].to_dict()
''')], "unrounded written"),
]
