N = "network_clustering.py"
SRC = open("/repo/src/flowstab/network_clustering.py").read()
I = SRC.index("                # delta stab if we move node out of (c_i_s,c_i_t)\n                r_out")
I0 = SRC.index("            node_ids = np.arange(self.num_nodes)", SRC.index("class Clustering("))
SCAN0 = SRC.index("                delta_r_best = 0", I)
SCAN1 = SRC.index("                if c_f_best != c_i:", I)
SCAN = SRC[SCAN0:SCAN1]
COMMIT = SRC[SCAN1:SRC.index("                # else do nothing", SCAN1)]
NODES = SRC[I0:SRC.index("            for node in node_ids:", I0)]
# anchor text that is unique to the Clustering version
HEAD = SRC[I:SCAN0]


def scan(body, commit=None):
    return [(N, HEAD + SCAN + COMMIT, HEAD + body + (commit if commit is not None else COMMIT))]


CASES = [
 ("P13", "fire", scan(SCAN.replace("if delta_r >= delta_r_best", "if abs(delta_r) >= delta_r_best")), "abs gain"),
 ("P13", "fire", scan(SCAN.replace("if delta_r >= delta_r_best", "if r_in >= delta_r_best")), "compares gain-in only"),
 ("P13", "fire", scan(SCAN.replace("if delta_r >= delta_r_best", "if delta_r >= 0")), "last non-negative, not best"),
 ("P13", "fire", scan(SCAN.replace("if delta_r >= delta_r_best", "if delta_r >= delta_r_best - 1e-3")), "tolerates losses"),
 ("P13", "fire", scan(SCAN.replace("delta_r_best = 0", "delta_r_best = -1")), "negative start"),
 ("P13", "fire", scan(SCAN.replace("delta_r_best = 0", "delta_r_best = -np.inf")), "-inf start"),
 ("P13", "fire", scan(SCAN.replace("delta_r_best = delta_r", "pass")), "gain not tracked"),
 ("P13", "fire", scan(SCAN.replace("delta_r = r_out + r_in", "delta_r = r_in - r_out")), "sign"),
 ("P13", "fire", scan(SCAN, COMMIT.replace("delta_r_loop += delta_r_best", "delta_r_loop += delta_r")), "last evaluated gain added"),
 ("P13", "fire", scan(SCAN, COMMIT.replace("delta_r_loop += delta_r_best", "delta_r_loop = delta_r_best")), "overwritten"),
 ("P13", "fire", [(N, "list(set(self._out_neighs[node] + self._in_neighs[node]))", "list(set(self._out_neighs[node]))")], "out only"),
 ("P13", "quiet", scan(SCAN.replace("if delta_r >= delta_r_best", "if delta_r > delta_r_best")), "strict"),
 ("P13", "quiet", scan(SCAN.replace("if delta_r >= delta_r_best", "if not delta_r < delta_r_best")), "not <"),
 ("P13", "quiet", scan(SCAN.replace("if delta_r >= delta_r_best", "if delta_r - delta_r_best >= 0")), "difference"),
 ("P13", "quiet", scan('''                delta_r_best = 0
                c_f_best = c_i
                for c_f in comms:
                    if c_f == c_i:
                        continue
                    delta_r = self._compute_delta_stab_moveto(node, c_f) + r_out
                    if delta_r < delta_r_best:
                        continue
                    c_f_best, delta_r_best = c_f, delta_r

'''), "continue style"),
 ("P13", "quiet", scan('''                best = max(((r_out + self._compute_delta_stab_moveto(node, c), c) for c in comms if c != c_i), default=(-1, c_i))
                delta_r_best, c_f_best = best if best[0] >= 0 else (0, c_i)
'''), "max over generator"),
 ("P13", "quiet", scan(SCAN, '''                delta_r_loop += delta_r_best
                if c_f_best != c_i:
                    self._move_node_to_cluster(node, c_f_best)
                    moved_nodes.add(node)

'''), "add before, unconditional"),
 ("P13", "quiet", [(N, NODES.replace("            node_ids", "            node_ids", 1), "            node_ids = self._rnd_state.permutation(self.num_nodes)\n")], "permutation"),
 ("P13", "quiet", scan(SCAN.replace("if delta_r >= delta_r_best", "if c_f_best == c_i or delta_r >= delta_r_best"), COMMIT.replace("if c_f_best != c_i:", "if c_f_best != c_i and delta_r_best >= 0:")), "first free, guarded commit"),
 ("P13", "quiet", scan(SCAN.replace("delta_r_best = 0", "delta_r_best = -np.inf"), COMMIT.replace("if c_f_best != c_i:", "if c_f_best != c_i and delta_r_best >= 0:")), "-inf, guarded commit"),
 ("P13", "fire", scan(SCAN.replace("if delta_r >= delta_r_best", "if c_f_best == c_i or delta_r >= delta_r_best")), "first free"),
 ("P12", "fire", [(N, "            self.cluster_list[c_i].remove(node)\n", "")], "move keeps node in old cluster"),
 ("P12", "fire", [(N, "            self.node_to_cluster_dict[node] = c_f\n", "            if len(self.cluster_list[c_f]) > 0:\n                self.node_to_cluster_dict[node] = c_f\n")], "map only for non-empty"),
 ("P12", "fire", [(N, "self.cluster_list = [c for c in self.cluster_list if len(c) > 0 ]", "self.cluster_list = [c for c in self.cluster_list if len(c) > 1]")], "singletons dropped"),
 ("P12", "fire", [(N, "        self.remove_empty_clusters()\n        if check_integrity", "        if cluster_list is not None:\n            self.cluster_list = [c for c in cluster_list if len(c) > 0]\n        if check_integrity")], "init no renumber"),
 ("P12", "fire", [(N, "        self.partition = self.source_part\n        self.target_part = None\n\n        if print_num", "        self.target_part = None\n\n        if print_num")], "public partition stale"),
 ("P12", "fire", [(N, "        og_old_part.remove_empty_clusters()\n", "        og_old_part.cluster_list = [c for c in og_old_part.cluster_list if c]\n")], "outside write"),
 ("P12", "quiet", [(N, "self.cluster_list = [c for c in self.cluster_list if len(c) > 0 ]", "kept = []\n        for c in self.cluster_list:\n            if c:\n                kept.append(c)\n        self.cluster_list = kept")], "loop"),
 ("P12", "quiet", [(N, "self.cluster_list = [c for c in self.cluster_list if len(c) > 0 ]", "self.cluster_list = list(filter(None, self.cluster_list))")], "filter"),
 ("P12", "quiet", [(N, "        c_i = self.node_to_cluster_dict[node]\n", "        d = self.node_to_cluster_dict\n        c_i = d[node]\n")], "alias read"),
 ("P20", "quiet", [(N, NODES, "            node_ids = self._rnd_state.permutation(self.num_nodes)\n")], "permutation"),
]

CASES += [
 ("P12", "fire", [(N, "            for j in range(num_clusters):\n                if i != j:\n                    inter.update", "            for j in range(1, i):\n                if i != j:\n                    inter.update")], "integrity: first cluster never compared"),
 ("P12", "quiet", [(N, "            for j in range(num_clusters):\n                if i != j:\n                    inter.update", "            for j in range(i):\n                if i != j:\n                    inter.update")], "integrity: each pair once"),
 ("P12", "fire", [(N, "        if len(inter) > 0:", "        if len(inter) > 1:")], "integrity: one shared node accepted"),
 ("P12", "quiet", [(N, "        if len(inter) > 0:", "        if inter:")], "integrity: truth of set"),
 ("P12", "fire", [(N, "            total_len += len(self.cluster_list[i])", "            total_len += max(len(self.cluster_list[i]), 1)")], "integrity: empty clusters counted"),
 ("P14", "fire", [(N, "            if (all([len(c) == 1 for clust_list", "            if (any([len(c) == 1 for clust_list")], "stops at a single cluster"),
 ("P14", "fire", [(N, "            if (all([len(c) == 1 for clust_list", "            if (all([len(c) <= 2 for clust_list")], "stops at clusters of two"),
 ("P14", "quiet", [(N, "            if (all([len(c) == 1 for clust_list", "            if (not any([len(c) > 1 for clust_list")], "not any larger"),
 ("P23", "fire", [(N, "(self.p1 == self.p1[0]).all()", "np.ptp(self.p1) < 1e-2")], "nearly uniform"),
 ("P23", "quiet", [(N, "(self.p1 == self.p1[0]).all()", "self.p1.max() == self.p1.min()")], "max is min"),
]
