"""P32: static_clustering."""
F = "network_clustering.py"
P = "P32"
DEG = "    degs = np.asarray(A.sum(axis=1)).squeeze()\n\n    degs_m1 = degs.copy()\n    degs_m1[degs_m1==0] = 1\n    degs_m1 = 1/degs_m1\n"
SL = "    A_sl = A.copy()\n\n    A_sl[degs==0,degs==0] = 1\n"
TS = "    Tstat = D(degs_m1) @ A_sl\n"
PI = "        pi = degs/degs.sum()\n"
PW = "        T = power(Tstat,t)\n"
LI = "        T = I(degs.size) - t*(I(degs.size)-Tstat)\n"
LR = "        Lrw = I(degs.size) - Tstat\n"
EX = "            T = expm(-t*Lrw)\n"
SX = "            T = sparse_lapl_expm(Lrw, t).tocsr()\n"
CASES = [
    (P, "fire", [(F, "degs = np.asarray(A.sum(axis=1)).squeeze()\n\n    degs_m1", "degs = np.asarray(A.sum(axis=0)).squeeze()\n\n    degs_m1")], "column sums"),
    (P, "fire", [(F, "    degs_m1[degs_m1==0] = 1\n    degs_m1 = 1/degs_m1\n", "    degs_m1 = 1/degs_m1\n    degs_m1[degs_m1==0] = 1\n")], "replaced after inversion"),
    (P, "fire", [(F, "    degs_m1[degs_m1==0] = 1\n", "")], "no replacement"),
    (P, "fire", [(F, "    A_sl[degs==0,degs==0] = 1\n", "")], "no self loops"),
    (P, "fire", [(F, SL, "    A_sl = A\n\n    A_sl[degs==0,degs==0] = 1\n")], "caller's matrix"),
    (P, "fire", [(F, "    A_sl[degs==0,degs==0] = 1\n", "    A_sl[degs==0,degs==0] = 0.5\n")], "weight of self loops"),
    (P, "fire", [(F, TS, "    Tstat = A_sl @ D(degs_m1)\n")], "columns normalised"),
    (P, "fire", [(F, TS, "    Tstat = D(degs) @ A_sl\n")], "multiplied by degrees"),
    (P, "fire", [(F, TS, "    Tstat = D(degs_m1) @ A\n")], "self loops unused"),
    (P, "fire", [(F, PI, "        pi = degs/degs.max()\n")], "not normalised"),
    (P, "fire", [(F, PI, "        pi = degs\n")], "degrees"),
    (P, "fire", [(F, '            w, v = eigs(Tstat.T, k=1, which="LR")\n', '            w, v = eigs(Tstat, k=1, which="LR")\n')], "right eigenvector"),
    (P, "fire", [(F, '            w, v = eigs(Tstat.T, k=1, which="LR")\n', '            w, v = eigs(Tstat.T, k=1, which="LM")\n')], "largest modulus"),
    (P, "fire", [(F, "            k = np.argmin(np.abs(w - 1))\n", "            k = 0\n")], "first eigenvector"),
    (P, "fire", [(F, "            k = np.argmin(np.abs(w - 1))\n", "            k = np.argmax(np.abs(w))\n")], "largest modulus dense"),
    (P, "fire", [(F, "            pi = v[:,k].real\n", "            pi = v[k,:].real\n")], "row of eigenvectors"),
    (P, "fire", [(F, PW, "        T = power(Tstat,t+1)\n")], "power"),
    (P, "fire", [(F, "        power = lambda M, n : np.linalg.matrix_power(M, n)\n", "        power = lambda M, n : M**n\n")], "elementwise power"),
    (P, "fire", [(F, LI, "        T = I(degs.size) - t*Tstat\n")], "linear without I"),
    (P, "fire", [(F, LI, "        T = I(degs.size) + t*(I(degs.size)-Tstat)\n")], "sign"),
    (P, "fire", [(F, EX, "            T = expm(t*Lrw)\n")], "sign of the exponential"),
    (P, "fire", [(F, EX, "            T = expm(-Lrw)\n")], "time left out"),
    (P, "fire", [(F, SX, "            T = sparse_lapl_expm(Lrw, 1).tocsr()\n")], "time left out sparse"),
    (P, "fire", [(F, SX, "            T = sparse_lapl_expm(-Lrw, t).tocsr()\n")], "sign sparse"),
    (P, "fire", [(F, "        return SparseClustering(p1=pi,p2=pi,T=T, rnd_seed=rnd_seed)\n", "        return Clustering(p1=pi,p2=pi,T=T, rnd_seed=rnd_seed)\n")], "class"),
    (P, "fire", [(F, "        return Clustering(p1=pi,p2=pi,T=T, rnd_seed=rnd_seed)\n", "        return Clustering(p1=pi,p2=pi,T=T)\n")], "seed"),
    (P, "fire", [(F, "    elif linearized:\n", "    elif linearized and is_csr:\n")], "linearized only for sparse"),
    (P, "fire", [(F, "    if discrete_time_rw and isinstance(t,int):\n", "    if discrete_time_rw and isinstance(t,int) and not directed:\n")], "discrete only undirected"),
    (P, "fire", [(F, '        raise TypeError("A must be numpy array or scipy csr.")\n', '        is_csr = False\n        D = np.diag\n        I = np.eye\n        power = np.linalg.matrix_power\n')], "anything accepted"),
    (P, "fire", [(F, '        pi = degs\n        raise ValueError("sum of degrees equal 0.")\n', "        pi = degs\n")], "no links accepted"),
    (P, "quiet", [(F, DEG, "    degs = np.asarray(A.sum(1)).ravel()\n    degs_m1 = 1/np.where(degs == 0, 1, degs)\n")], "where"),
    (P, "quiet", [(F, DEG, "    degs = np.asarray(A.sum(axis=1)).squeeze()\n    isolated = degs == 0\n    safe = degs.copy()\n    safe[isolated] = 1\n    degs_m1 = 1.0/safe\n")], "named mask"),
    (P, "quiet", [(F, SL, "    A_sl = A.copy()\n    lonely = degs == 0\n    A_sl[lonely, lonely] = 1\n")], "mask of self loops"),
    (P, "quiet", [(F, LI, "        L1 = I(degs.size) - Tstat\n        T = I(degs.size) - t*L1\n")], "named laplacian"),
    (P, "quiet", [(F, LI, "        T = (1 - t)*I(degs.size) + t*Tstat\n")], "collected"),
    (P, "quiet", [(F, EX, "            T = expm(t*(Tstat - I(degs.size)))\n")], "generator"),
    (P, "quiet", [(F, "            k = np.argmin(np.abs(w - 1))\n", "            k = np.argmax(w.real)\n")], "largest real part"),
    (P, "quiet", [(F, PI, "        total = degs.sum()\n        pi = degs/total\n")], "named total"),
    (P, "quiet", [(F, "    if is_csr:\n        return SparseClustering(p1=pi,p2=pi,T=T, rnd_seed=rnd_seed)\n    else:\n        return Clustering(p1=pi,p2=pi,T=T, rnd_seed=rnd_seed)\n",
                   "    cls = SparseClustering if is_csr else Clustering\n    return cls(p1=pi, p2=pi, T=T, rnd_seed=rnd_seed)\n")], "class chosen"),
    (P, "quiet", [(F, TS, "    Tstat = _row_normalise(A_sl, degs_m1, D)\n"), (F, "def static_clustering(A, t=1", "def _row_normalise(M, d, D):\n    return D(d) @ M\n\n\ndef static_clustering(A, t=1")], "helper"),
    (P, "quiet", [(F, "    if isinstance(A, csr_matrix):\n        is_csr = True\n", "    is_csr = isinstance(A, csr_matrix)\n    if is_csr:\n")], "flag first"),
]
