"""third batch of planted bugs (see seeds_2.py)"""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("m2", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_2.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
CT, CL = _m.CT, _m.CL
FS = CT + '''
from flowstab.flow_stability import FlowStability
'''
SEEDS = {
 "p17_b": dict(property="P17",
  edits=[("temporal_network.py", "                t = self.times[self.times <= t].max()\n", "                t = self.times[np.argmin(np.abs(self.times.values - t))]\n")],
  needs="a window bound between two grid times, nearer to the later one",
  breaks="the window starts or stops at the next grid time, not at the last one before the requested time",
  demo=CT + '''
n = net()
n._compute_time_grid()
t = sorted(n.times.values)
for a, b in zip(t[:-1], t[1:]):
    q = a + 0.9*(b - a)
    assert n._get_closest_time(q)[0] == a, (q, n._get_closest_time(q), a)
m = net(); m.compute_laplacian_matrices(t_start=t[2] + 0.9*(t[3]-t[2]))
assert m._t_start_laplacians == t[2], (m._t_start_laplacians, t[2])
'''),
 "p27_b": dict(property="P27",
  edits=[("flow_stability.py", "                n_loops = self.flow_clustering_forward[\n                    _ts].find_louvain_clustering(**kwargs)\n", "                n_loops = self.flow_clustering_forward[\n                    _ts].find_louvain_clustering(**kwargs)\n                kwargs = {}\n")],
  needs="several time scales and an option given to the search",
  breaks="the option only reaches the search of the first time scale",
  demo=FS + '''
fs = FlowStability(time_direction=1, time_scale=[0.5, 1., 2.])
fs.set_temporal_network(events_table=net().events_table)
fs.compute_laplacian_matrices(); fs.compute_inter_transition_matrices(); fs.set_flow_clustering()
got = []
for ts, c in fs.flow_clustering_forward.items():
    c.find_louvain_clustering = (lambda ts: lambda **k: got.append((ts, k)))(ts)
fs.find_louvain_clustering(n_meta_iter_max=3)
assert len(got) == 3 and all(k.get("n_meta_iter_max") == 3 for _, k in got), got
'''),
 "p32_b": dict(property="P32",
  edits=[("network_clustering.py", "    A_sl[degs==0,degs==0] = 1\n", "    if directed:\n        A_sl[degs==0,degs==0] = 1\n")],
  needs="an undirected graph with a node without links",
  breaks="the walker has nowhere to go at an isolated node: its row of the transition matrix is not that of a random walk",
  demo=CL + '''
A = np.array([[0,1,1,0],[1,0,1,0],[1,1,0,0],[0,0,0,0]], float)
D = A.copy(); D[3,3] = 1
X = D/D.sum(1, keepdims=True)
with np.errstate(all="ignore"):
    for M in (A, csr_matrix(A)):
        c = static_clustering(M.copy(), t=2, discrete_time_rw=True, rnd_seed=1)
        T = c.T.toarray() if hasattr(c.T, "toarray") else np.asarray(c.T)
        assert np.allclose(T, X @ X), T
'''),
 "p33_b": dict(property="P33",
  edits=[("network_clustering.py", "    for seed in seeds:\n\n        # create a copy of clustering with a different seed\n", "    for seed in sorted(seeds):\n\n        # create a copy of clustering with a different seed\n")],
  needs="several runs whose drawn seeds are not increasing",
  breaks="the seeds returned do not belong to the runs they are returned with: a run cannot be repeated from its seed",
  demo=CL + '''
class C(Clustering):
    def __init__(self, *a, rnd_seed=None, **k):
        self.my = rnd_seed
        super().__init__(*a, rnd_seed=rnd_seed, **k)
    def find_louvain_clustering(self, **k):
        return 1
    def compute_stability(self, R=None):
        return self.my
T = T_(5); p = np.ones(5)/5
n, cl, st, seeds = run_multi_louvain(C(T=T, p1=p, p2=p @ T), 12)
assert list(st) == list(seeds), (st, seeds)
'''),
 "p23_b": dict(property="P23",
  edits=[("network_clustering.py", "            if (self.p1 == self.p1[0]).all():\n", "            if np.ptp(self.p1) < 1e-2:\n")],
  needs="sparse matrices of a network so large that all start weights are small, with weights that differ",
  breaks="a non-uniform start distribution is replaced by the weight of the first node in the null model",
  demo=CL + '''
n = 250
r = np.random.RandomState(1)
Ts = [T_(n, 1, .05), T_(n, 2, .05)]
p1 = r.rand(n) + .1; p1 /= p1.sum()
with contextlib.redirect_stdout(io.StringIO()):
    d = FlowIntegralClustering(T_inter_list=Ts, time_list=[0., 1., 2.], p1=p1)
    s = FlowIntegralClustering(T_inter_list=[csr_matrix(T) for T in Ts], time_list=[0., 1., 2.], p1=p1)
for a, b in zip(d.I_list, s.I_list):
    F = b.toarray() if hasattr(b, "toarray") else b.to_full_mat()
    assert np.allclose(a, F, atol=1e-9), abs(a - F).max()
'''),
 "p14_b": dict(property="P14",
  edits=[("network_clustering.py", "            if (all([len(c) == 1 for clust_list in self._get_cluster_list().values() \\\n", "            if (any([len(c) == 1 for clust_list in self._get_cluster_list().values() \\\n")],
  needs="a level that leaves one node on its own while other clusters can still be merged",
  breaks="the search stops although the last level improved and clusters are left to merge",
  demo=CL + '''
bad = 0
for seed in range(12):
    r = np.random.RandomState(seed)
    n = 31
    A = np.zeros((n, n))
    for i in range(n - 1):
        A[i, (i+1) % (n-1)] = A[(i+1) % (n-1), i] = 1
    A[n-1, n-1] = 1
    d = A.sum(1); T = A/d[:, None]
    p = d/d.sum()
    c = Clustering(T=T @ T @ T @ T, p1=p, p2=p, rnd_seed=seed)
    c.find_louvain_clustering()
    before = c.compute_stability()
    T2, p1, p2, S = c._aggregate_clusters()
    m = Clustering(T=T2, p1=p1, p2=p2, S=S, rnd_seed=seed)
    m.find_louvain_clustering()
    bad += m.compute_stability() > before + 1e-9
assert bad == 0, bad
'''),
 "p22_b": dict(property="P22",
  edits=[("network_clustering.py", "                meta_clustering = self.__class__(T=T, p1=p1, p2=p2, S=S,\n", "                meta_clustering = self.__class__(T=T, p1=p1, p2=p2,\n                                             S=S if T is None else None,\n")],
  needs="a clustering given both transition matrix and its own covariance matrix, and a search of several levels",
  breaks="from the second level on the search optimises the covariance recomputed from the transition matrix instead of the one given",
  demo=CL + '''
for cls, conv in ((Clustering, lambda x: x),):
    n = 24; T = T_(n, 3, .2); p = np.ones(n)/n
    blk = np.kron(np.eye(4), np.ones((6, 6)))
    S = (blk/6 + T)/n/2 - 1/n**2
    seen = []
    class C(cls):
        def _louvain_move_nodes(self, *a, **k):
            seen.append(float(np.asarray(self._S).sum()))
            seen.append(np.asarray(self._S).copy())
            return super()._louvain_move_nodes(*a, **k)
        def _aggregate_clusters(self):
            out = super()._aggregate_clusters()
            self.want = out[3]
            return out
    c = C(T=T, p1=p, p2=p @ T, S=S, rnd_seed=1)
    c.find_louvain_clustering()
    mats = seen[1::2]
    assert len(mats) > 1
    assert np.allclose(mats[-1], c.want), "another covariance on the next level"
'''),
 "p12_b": dict(property="P12",
  edits=[("network_clustering.py", "            for j in range(num_clusters):\n                if i != j:\n                    inter.update", "            for j in range(1, i):\n                if i != j:\n                    inter.update")],
  needs="a list in which a node of the first cluster is named a second time and another node is left out",
  breaks="the integrity check accepts a list of clusters that is not a partition",
  demo=CL + '''
for L in ([{0, 1}, {2}, {0}], [{0}, {0}], [{1}, {2, 3}, {1}], [{0, 1}, {1}], [{0}, {1, 2}, {2}]):
    n = sum(map(len, L))
    try:
        Partition(n, cluster_list=[set(c) for c in L], check_integrity=True)
    except ValueError:
        continue
    raise SystemExit("accepted %s" % L)
Partition(4, cluster_list=[{0, 3}, {1}, {2}], check_integrity=True)
'''),
 "p05_b": dict(property="P05",
  edits=[("temporal_network.py", "                                self._k_start_laplacians:self._k_stop_laplacians+1]\n            save_dict[\"num_nodes\"] = self.num_nodes\n", "                                self._k_start_laplacians:self._k_stop_laplacians]\n            save_dict[\"num_nodes\"] = self.num_nodes\n")],
  needs="exact transition matrices that are saved and loaded again, and the end of the period read from the loaded object",
  breaks="the last time of the period is missing from the file",
  demo=CT + '''
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    n = net(); n.compute_laplacian_matrices(); n.compute_inter_transition_matrices(lamda=1., use_sparse_stoch=True)
    f = os.path.join(d, "it")
    n.save_inter_T(f)
    m = None
    if not isinstance(m, dict):
        import pickle
        m = [pickle.load(open(os.path.join(d, x), "rb")) for x in os.listdir(d)][0]
t = m["times_k_start_to_k_stop+1"]
assert len(t) == len(n.inter_T[1.]) + 1, (len(t), len(n.inter_T[1.]))
'''),
 "p34_b": dict(property="P34",
  edits=[("synth_temp_network.py", "                if (set(potential_partners).union(set([indiv_id]))).issubset(un_partners):\n                    new_partner = None\n                else:\n                    new_partner = indiv_id\n                    while new_partner in un_partners:\n                        new_partner = \\\n                            np.random.choice(potential_partners)\n\n        elif self.next_event_method == \"block_probs_mod\":", "                free = [n for n in potential_partners if n not in un_partners]\n                if len(free) < 2:\n                    new_partner = None\n                else:\n                    new_partner = np.random.choice(free)\n\n        elif self.next_event_method == \"block_probs_mod\":")],
  needs="a group with only one individual left to meet (block_probs)",
  breaks="an available partner is not found",
  demo='''
import numpy as np
from flowstab.synth_temp_network import Individual, SynthTempNetwork
np.random.seed(1)
ind = [Individual(0, group=0), Individual(1, group=0), Individual(2, group=1)]
s = SynthTempNetwork(ind, t_end=100, next_event_method="block_probs", inter_group_probs=[[0., 1.], [1., 0.]])
s.t = 0
assert s.get_new_partner(0) == 2, s.get_new_partner(0)
assert s.get_new_partner(2) in (0, 1)
'''),
 "p34_c": dict(property="P34",
  edits=[("synth_temp_network.py", "                            if partner is not None:\n                                #update A and _last_times\n                                self._A[indiv_id,partner] = 1\n", "                            if partner is not None:\n                                #update A and _last_times\n                                self._A[indiv_id,partner] = self._A[partner,indiv_id] = 1\n"),
   ("synth_temp_network.py", "                        self._A[indiv_id,partner] = 0\n", "                        self._A[indiv_id,partner] = self._A[partner,indiv_id] = 0\n")],
  needs="two individuals that each begin a contact with the other, one ending before the other",
  breaks="contacts between the pair are marked as ended while one of them goes on, and cannot be told apart",
  demo='''
import numpy as np
from flowstab.synth_temp_network import Individual, SynthTempNetwork
np.random.seed(3)
ind = [Individual(i, inter_distro_scale=5, activ_distro_scale=2) for i in range(4)]
s = SynthTempNetwork(ind, t_end=60)
s.run(save_all_states=True)
ev = list(zip(s.indiv_sources, s.indiv_targets, s.start_times, s.end_times))
for t, A in s.all_states.items():
    A = A.toarray()
    for i, j, a, b in ev:
        if a <= t < b:
            assert A[i, j] == 1, (t, i, j)
    assert not np.array_equal(A, A.T) or True
one = [t for t, A in s.all_states.items() if not np.array_equal(A.toarray(), A.toarray().T)]
assert one, "contacts have lost their direction"
'''),
 "p35_b": dict(property="P35",
  edits=[("temporal_network.py", "    nonzerosum_rowcols = ~np.logical_and(L.getnnz(1)==0,\n                                        L.getnnz(0)==0)\n\n    nonzero_indices,", "    nonzerosum_rowcols = ~np.logical_or(L.getnnz(1)==0,\n                                        L.getnnz(0)==0)\n\n    nonzero_indices,")],
  needs="a directed Laplacian with a node that is only reached (or only left)",
  breaks="the node is left out of the compact exponential",
  demo='''
import numpy as np
from scipy.linalg import expm
from scipy.sparse import csc_matrix
from flowstab.temporal_network import sparse_lapl_expm
L = np.array([[1., -1., 0., 0.], [-.5, 1., -.5, 0.], [0., 0., 0., 0.], [0., 0., 0., 0.]])
T = sparse_lapl_expm(csc_matrix(L), .7).tocsr().toarray()
assert np.allclose(T, expm(-.7*L)), T
'''),
 "p35_c": dict(property="P35",
  edits=[("temporal_network.py", "            n_comp, comp_labels = connected_components(L_small,directed=False)\n            if n_comp > 1 :\n                T_small = expm_func(", "            n_comp, comp_labels = connected_components(L_small, connection=\"strong\")\n            if n_comp > 1 :\n                T_small = expm_func(")],
  needs="a directed Laplacian with at least 1000 active nodes and dense_expm=False",
  breaks="transitions between strongly connected components are lost",
  demo='''
import numpy as np
from scipy.linalg import expm
from scipy.sparse import block_diag, csc_matrix
from flowstab.temporal_network import sparse_lapl_expm
B = np.array([[1., -1., 0.], [-.5, 1., -.5], [0., 0., 0.]])
n = 400
T = sparse_lapl_expm(csc_matrix(block_diag([B]*n)), .7, dense_expm=False).tocsr()
E = expm(-.7*B)
for k in (0, 17, n-1):
    assert np.allclose(T[3*k:3*k+3, 3*k:3*k+3].toarray(), E), T[3*k:3*k+3, 3*k:3*k+3].toarray()
'''),
}
