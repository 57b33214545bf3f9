COMMON_NET = '''
import warnings, logging
import numpy as np
warnings.simplefilter("ignore")
from flowstab.flow_stability import FlowStability
logging.disable(logging.CRITICAL)
def net(seed=0, n=60):
    rng = np.random.RandomState(seed)
    return dict(source_nodes=list(rng.randint(0, 6, n)), target_nodes=list(rng.randint(6, 12, n)),
                starting_times=list(np.arange(n) * 1.0), ending_times=list(np.arange(n) * 1.0 + 1.5))
'''
SEEDS = {
 "p01_a": dict(property="P01",
  edits=[("state_tracking.py", "                    _required_props = self._state.properties_required.get(\n                        minimal_state, []\n                    )\n                    _missing_props",
          "                    _required_props = self._state.properties_required.get(\n                        _current_state, []\n                    )\n                    _missing_props")],
  needs="a required setting is unset after the workflow has advanced past the stage that needs it, and the step is called again from the later stage",
  breaks="the step runs although a setting it requires is missing, because the requirements of the current stage instead of the step's stage are consulted",
  demo=COMMON_NET + '''
from enum import Enum
from flowstab.state_tracking import StateMeta, OrderedEnum, State
class St(OrderedEnum):
    A = 0
    B = 1
    C = 2
ran = []
class W(metaclass=StateMeta, states=St):
    def __init__(self):
        self._x = None
        self._y = None
    @property
    def x(self):
        return self._x
    @StateMeta.register(next_state=St.C)
    @x.setter
    def x(self, v):
        self._x = v
    @property
    def y(self):
        return self._y
    @StateMeta.register(next_state=St.A)
    @y.setter
    def y(self, v):
        self._y = v
    @StateMeta.register(minimal_state=St.A, next_state=St.B)
    def one(self):
        ran.append("one")
    @StateMeta.register(minimal_state=St.B, next_state=St.C)
    def two(self):
        ran.append("two")
w = W()
w.y = 1
w.one()
w.two()
assert ran == ["one", "two"], ran
# at stage C a setting needed only later (x) is still missing: re-running `two` is legitimate
w.two()
assert ran == ["one", "two", "two"], ran
'''),
 "p02_a": dict(property="P02",
  edits=[("flow_stability.py", "    @register(next_state=States.TEMP_NW, ignore_none=False)\n    @t_stop.setter", "    @register(next_state=States.LAPLAC, ignore_none=False)\n    @t_stop.setter")],
  needs="the end of the time window is changed after the Laplacians were computed, then the workflow is continued",
  breaks="the analysis continues with Laplacians of the old time window and reports the result as current",
  demo=COMMON_NET + '''
fs = FlowStability()
fs.set_temporal_network(**net())
fs.compute_laplacian_matrices()
fs.time_scale = 2.0
fs.compute_inter_transition_matrices()
fs.t_stop = 20.0
fs.compute_inter_transition_matrices()      # must be refused: Laplacians are those of the old window
n = len(fs.temporal_network.laplacians)
assert fs.state.current.name == "TEMP_NW", (fs.state.current, n)
'''),
 "p13_a": dict(property="P13",
  edits=[("network_clustering.py", "                        # we use `>=` to allow for more mixing (can be useful)\n                        if delta_r >= delta_r_best:\n                            delta_r_best = delta_r\n                            c_f_best = c_f\n\n                if c_f_best != c_i:\n                    #move node",
          "                        # we use `>=` to allow for more mixing (can be useful)\n                        if c_f_best == c_i or delta_r >= delta_r_best:\n                            delta_r_best = delta_r\n                            c_f_best = c_f\n\n                if c_f_best != c_i and delta_r_best > -1e-3:\n                    #move node")],
  needs="a node all of whose alternatives are slightly worse than staying",
  breaks="a move that lowers the objective is committed",
  demo='''
import numpy as np
from flowstab.network_clustering import Clustering
bad = 0
for seed in range(40):
    rng = np.random.RandomState(seed)
    n = 40
    A = (rng.rand(n, n) < 0.15).astype(float)
    A = np.triu(A, 1); A = A + A.T
    A[np.arange(n), (np.arange(n) + 1) % n] = 1; A[(np.arange(n) + 1) % n, np.arange(n)] = 1
    T = A / A.sum(1)[:, None]; p = A.sum(1) / A.sum()
    c = Clustering(T=T, p1=p, p2=p, rnd_seed=seed)
    # start from a partition and watch every committed move
    orig = c._move_node_to_cluster
    def move(node, cf, c=c, orig=orig):
        global bad
        before = c.compute_stability()
        orig(node, cf)
        if c.compute_stability() < before - 1e-9:
            bad += 1
    c._move_node_to_cluster = move
    c._louvain_move_nodes(n_sub_iter_max=6)
assert bad == 0, "%d committed moves lowered the objective" % bad
'''),
 "p20_a": dict(property="P20",
  edits=[("_cython_sparse_stoch.pyx", "        s += p1[k]*p2[idx[i]]\n        s += p1[idx[i]]*p2[k]\n    s -= p1[k]*p2[k]",
          "        s += 2*p1[k]*p2[idx[i]]\n    s -= p1[k]*p2[k]")],
  needs="a sparse clustering whose start and end node weights differ",
  breaks="the loss of taking a node out of its cluster is wrong, so the search commits worse moves",
  demo='''
import numpy as np
from scipy.sparse import csr_matrix
from flowstab.network_clustering import SparseClustering
rng = np.random.RandomState(1)
n = 12
A = (rng.rand(n, n) < 0.4).astype(float) + np.eye(n)
T = A / A.sum(1)[:, None]
p1 = rng.rand(n); p1 /= p1.sum()
cl = [set(range(0, 4)), set(range(4, 8)), set(range(8, n))]
c = SparseClustering(T=csr_matrix(T), p1=p1, p2=p1 @ T, cluster_list=[set(x) for x in cl])
S = np.diag(p1) @ T - np.outer(p1, p1 @ T)
def stab(parts):
    return sum(S[np.ix_(sorted(x), sorted(x))].sum() for x in parts if x)
for k in range(n):
    ci = c._get_node_cluster(k)
    after = [set(x) - {k} for x in cl] + [set([k])]
    # singleton cluster contributes S[k,k]; the gain of moving out leaves k without cluster
    want = stab([set(x) - {k} for x in cl]) - stab(cl) + S[k, k]
    got = c._compute_delta_stab_moveout(k, ci)
    assert abs(got - want) < 1e-10 or abs(got - (want - S[k, k])) < 1e-10, (k, got, want)
'''),
}
