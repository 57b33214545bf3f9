CT = '''
import warnings, logging, sys, io, os, tempfile, contextlib
import numpy as np, pandas as pd
from scipy.sparse import csr_matrix, isspmatrix
warnings.simplefilter("ignore")
from flowstab.temporal_network import ContTempNetwork
logging.disable(logging.CRITICAL)
def full(M):
    if hasattr(M, "to_full_mat"): M = M.to_full_mat()
    return M.toarray() if hasattr(M, "toarray") else np.asarray(M)
def net(**kw):
    s=[0,1,0,2,3,1,0,2]; t=[1,2,2,3,4,4,3,4]; b=[0.,1.,2.,3.,4.,5.,6.,7.]; e=[1.5,2.5,2.7,4.5,5.5,6.5,7.5,8.5]
    return ContTempNetwork(source_nodes=s, target_nodes=t, starting_times=b, ending_times=e, **kw)
'''
CL = '''
import warnings, contextlib, io
import numpy as np
from scipy.sparse import csr_matrix
warnings.simplefilter("ignore")
from flowstab import network_clustering as nc
from flowstab.network_clustering import *
def T_(n, seed=0, dens=1.0):
    r = np.random.RandomState(seed)
    A = r.rand(n, n)*(r.rand(n, n) < dens) + np.eye(n)
    return A/A.sum(1, keepdims=True)
'''
SEEDS = {
 "p24_b": dict(property="P24",
  edits=[("temporal_network.py", "                        (self.events_table.ending_times > \\\n                                                t_km1)", "                        (self.events_table.ending_times >= \\\n                                                t_km1)")],
  needs="a window that starts after the first time of the network, with a contact that ended exactly at the grid time before it",
  breaks="a finished contact is still connected in the Laplacians of the window",
  demo=CT + '''
n = net()
n.compute_laplacian_matrices()
ref = [full(L) for L in n.laplacians]; times = list(n.times)
for k in range(1, len(times)-2):
    m = net()
    m.compute_laplacian_matrices(t_start=times[k])
    for j, L in enumerate(m.laplacians):
        assert np.allclose(full(L), ref[k+j]), (k, j)
'''),
 "p16_b": dict(property="P16",
  edits=[("temporal_network.py", "                    self.T[lamda] = self.T[lamda] @ Tk\n", "                    self.T[lamda] = (self.T[lamda] @ Tk if not reverse_time\n                                     else Tk @ self.T[lamda])\n")],
  needs="compute_transition_matrices(save_intermediate=False, reverse_time=True)",
  breaks="the backward transition matrix is multiplied on the wrong side",
  demo=CT + '''
for fmt in (True, False):
    n = net()
    n.compute_laplacian_matrices()
    n.compute_inter_transition_matrices(lamda=1.0, use_sparse_stoch=fmt)
    n.compute_transition_matrices(lamda=1.0, save_intermediate=False, reverse_time=True)
    P = np.eye(n.num_nodes)
    for M in reversed(n.inter_T[1.0]):
        P = P @ full(M)
    assert np.allclose(full(n.T[1.0]), P)
'''),
 "p30_b": dict(property="P30",
  edits=[("sparse_stoch_mat.py", "tol = tol*np.abs([self.T_small.data.min(),self.T_small.data.max()]).max()", "tol = tol*np.abs(self.T_small.data).mean()")],
  needs="a SparseStochMat with entries between the tolerance times the mean and the tolerance times the largest entry",
  breaks="the relative tolerance is taken relative to the mean entry",
  demo=CT + '''
from flowstab.sparse_stoch_mat import SparseStochMat
M = np.array([[0.5, 0.5, 0, 0], [2e-3, 0.998, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.]])
for tol in (1e-4, 2.5e-3, 3e-3, 1e-2):
    S = SparseStochMat.from_full_csr_matrix(csr_matrix(M))
    S.set_to_zeroes(tol)
    R = M.copy(); R[R <= tol*0.998] = 0
    assert np.allclose(full(S), R), (tol, full(S))
'''),
 "p25_b": dict(property="P25",
  edits=[("_cython_sparse_stoch.pyx", "            # we need to add the diagonal term of B\n            spa.scatter(-1*Bdiag_val, ic)", "            # we need to add the diagonal term of B\n            spa.scatter(-1*Bdiag_val, ia)")],
  needs="a difference of two SparseStochMat in which the first has a row of its own after a row of its own or shared row was preceded by rows of the second only",
  breaks="the diagonal of the second matrix is subtracted at another column",
  demo=CT + '''
from flowstab.sparse_stoch_mat import SparseStochMat
from itertools import combinations
def mat(rows, n=6, seed=0):
    r = np.random.RandomState(seed); M = np.eye(n)
    for i in rows:
        M[i] = 0
        for j in rows: M[i, j] = r.rand() + .1
        M[i] /= M[i].sum()
    return M
for k, ra in enumerate(list(combinations(range(6), 2)) + list(combinations(range(6), 3))):
    for l, rb in enumerate(list(combinations(range(6), 2)) + list(combinations(range(6), 3))):
        A, B = mat(ra, seed=k), mat(rb, seed=50+l)
        C = SparseStochMat.from_full_csr_matrix(csr_matrix(A)) - SparseStochMat.from_full_csr_matrix(csr_matrix(B))
        assert np.allclose(full(C), A - B), (ra, rb)
'''),
 "p21_b": dict(property="P21",
  edits=[("network_clustering.py", '\n            if not (isinstance(T, SparseStochMat) or isspmatrix_csr(T)):\n                raise TypeError("T must be a csr or SparseStochMat.")\n\n            # assert np.allclose(T.sum(1),np.ones(T.shape[1])),\\\n            #                     "Transition matrix must be stochastic"\n\n            self.T = T.copy()\n\n        if p1 is None:\n            # uniform distribution\n            p1 = np.ones(self.num_nodes)/self.num_nodes\n\n        if p2 is None:\n            p2 = p1 @ self.T\n', '\n            if not (isinstance(T, SparseStochMat) or isspmatrix_csr(T)):\n                raise TypeError("T must be a csr or SparseStochMat.")\n\n            # assert np.allclose(T.sum(1),np.ones(T.shape[1])),\\\n            #                     "Transition matrix must be stochastic"\n\n            self.T = T.copy()\n\n        if p1 is None:\n            # uniform distribution\n            p1 = np.ones(self.num_nodes)/self.num_nodes\n\n        if p2 is None:\n            p2 = self.T @ p1\n')],
  needs="p2 not given, transition matrix that is not doubly stochastic or symmetric",
  breaks="the end distribution is the transition matrix applied from the wrong side",
  demo=CL + '''
for n in (3, 6):
    T = T_(n, n); p1 = np.random.RandomState(1).rand(n); p1 /= p1.sum()
    for cls, M in ((Clustering, T), (SparseClustering, csr_matrix(T))):
        c = cls(p1=p1.copy(), T=M)
        assert np.allclose(c.p2, p1 @ T), cls
'''),
 "p09_b": dict(property="P09",
  edits=[("network_clustering.py", "        if rnd_seed is not None:\n            self._rnd_state.seed(rnd_seed)\n", "        if rnd_seed:\n            self._rnd_state.seed(rnd_seed)\n")],
  needs="a search with rnd_seed=0 on a clustering object that was used before",
  breaks="the seed 0 is ignored: repeated searches differ",
  demo=CL + '''
class R(np.random.RandomState): pass
T = T_(6, 1)
seen = []
for k in range(2):
    c = Clustering(T=T, rnd_seed=5+k)
    c.find_louvain_clustering(rnd_seed=0)
    seen.append(c._rnd_state.rand())
assert seen[0] == seen[1], seen
'''),
 "p04_b": dict(property="P04",
  edits=[("temporal_network.py", "        for attr in attributes_list:\n            if hasattr(self, attr):\n                save_dict[attr] = getattr(self,attr)\n", "        for attr in attributes_list:\n            if np.size(getattr(self, attr, ())) > 0:\n                save_dict[attr] = getattr(self,attr)\n")],
  needs="a network one of whose saved attributes is empty",
  breaks="an empty attribute is missing after loading",
  demo=CT + '''
n = net()
with tempfile.TemporaryDirectory() as d:
    for a in ("node_label_array", "events_table", "times", "node_to_label_dict", "_compute_times"):
        pass
    n._compute_times = {}
    n.times = np.array([])
    n.save(os.path.join(d, "x"))
    m = ContTempNetwork.load(os.path.join(d, "x"))
    assert hasattr(m, "times") and len(m.times) == 0
'''),
 "p31_b": dict(property="P31",
  edits=[("parallel_clustering.py", "    nvarinf_samples_idx = np.random.choice(range(max_num_varinf_samples),\n                                                       num_varinf_samples,\n                                                       replace=False)", "    nvarinf_samples_idx = np.random.randint(max_num_varinf_samples,\n                                            size=num_varinf_samples)")],
  needs="compute_parallel_nvi with more than one pair of partitions, and two equal draws",
  breaks="pairs are drawn with repetition and then deduplicated: fewer pairs are evaluated than asked for",
  demo=CL + '''
from flowstab.parallel_clustering import compute_parallel_nvi
r = np.random.RandomState(0)
L = []
for k in range(8):
    lab = r.randint(0, 3, 12)
    L.append([set(np.flatnonzero(lab == c).tolist()) for c in range(3) if (lab == c).any()])
with contextlib.redirect_stdout(io.StringIO()):
    v = compute_parallel_nvi(L, 12, nproc=1, verbose=False)
    w = compute_parallel_nvi(L, 12, nproc=1, verbose=False, num_varinf_samples=20)
assert len(v) == 28 and len(w) == 20, (len(v), len(w))
'''),
 "p29_b": dict(property="P29",
  edits=[("parallel_expm.py", "    small_comps, = np.nonzero(comp_sizes < 1000)", "    small_comps, = np.nonzero((comp_sizes > 1) & (comp_sizes < 1000))")],
  needs="a matrix with an isolated node and at least two components",
  breaks="components of one node are left out",
  demo=CT + '''
import flowstab.parallel_expm as pe
from scipy.linalg import expm, block_diag
class FakePool:
    def __init__(self, nproc=None, initializer=None, initargs=()):
        initializer(*initargs)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def map(self, f, it, chunksize=None): return [f(x) for x in it]
pe.Pool = FakePool
r = np.random.RandomState(0)
A = block_diag(r.rand(3, 3), [[-0.7]], r.rand(2, 2))
with contextlib.redirect_stdout(io.StringIO()):
    E = pe.compute_subspace_expm_parallel(csr_matrix(A).tocsc(), nproc=1, normalize_rows=False)
assert np.allclose(full(E), expm(A)), full(E)
'''),
 "p11_b": dict(property="P11",
  edits=[("parallel_clustering.py", "var_dict[\"S\"] = np.frombuffer(Sraw, dtype=np.float64).reshape((N,N))", "var_dict[\"S\"] = np.frombuffer(Sraw, dtype=np.float64).reshape((N,N), order=\"A\").T")],
  needs="parallel runs of a dense clustering whose S is not symmetric",
  breaks="the workers see the transpose of S",
  demo=CL + '''
import flowstab.parallel_clustering as pc
if __name__ == "__main__":
    n = 8
    S = T_(n, 3); S = S/n - np.outer(np.ones(n)/n, np.ones(n)/n @ T_(n, 3))
    c = Clustering(T=T_(n, 3), S=S)
    got = {}
    class FakePool:
        def __init__(self, nproc=None, initializer=None, initargs=()):
            initializer(*initargs); got["S"] = pc.var_dict["S"].copy()
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def map(self, f, it, chunksize=None): return []
        imap = map
    pc.Pool = FakePool
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            pc.compute_parallel_clustering(c, num_repeat=2, nproc=2)
        except Exception:
            pass
    assert np.allclose(got["S"], c._S), "workers see another S"
'''),
 "p31_c": dict(property="P31",
  edits=[("_cython_fast_funcs.pyx", "            nij = <double>l_inter\n            n_inter += l_inter\n", "            nij = <double>l_inter\n            if n_inter > 0 and l_inter == 0:\n                break\n            n_inter += l_inter\n")],
  needs="clusters of the first partition that are spread over several clusters of the second",
  breaks="the scan over the clusters of the second partition stops too early: intersections are missed and the distance is too small",
  demo=CL + '''
def vi(a, b, N):
    s = 0.0
    for x in a:
        for y in b:
            n = len(x & y)
            if n: s -= n*np.log2(n*n/(len(x)*len(y)))
    return s/(N*np.log2(N))
for seed in range(30):
    r = np.random.RandomState(seed); N = 12
    P = []
    for k in range(2):
        lab = r.randint(0, 4, N)
        P.append([set(np.flatnonzero(lab == c).tolist()) for c in range(4) if (lab == c).any()])
    assert abs(norm_var_information(*P) - vi(P[0], P[1], N)) < 1e-9, seed
'''),
}
