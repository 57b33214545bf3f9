N = "network_clustering.py"
U = "                new_node_to_cluster_dict[node] = \\\n                    meta_new_part.node_to_cluster_dict[meta_node]\n"
CASES = [
 ("P22", "fire", [(N, "            if n_meta_loop == 1:\n", "            if n_meta_loop >= 1:\n")], "reset always"),
 ("P22", "fire", [(N, "            if n_meta_loop == 1:\n", "            if n_meta_loop == 2:\n")], "reset at second"),
 ("P22", "fire", [(N, "                self._update_to_singletons()\n", "                pass\n")], "no reset"),
 ("P22", "fire", [(N, U, "                new_node_to_cluster_dict[node] = meta_node\n")], "merges lost"),
 ("P22", "fire", [(N, "deepcopy(self._get_cluster_list())", "dict(self._get_cluster_list())")], "shared sets"),
 ("P22", "fire", [(N, "self.__class__(T=T, p1=p1, p2=p2, S=S,\n                                             rnd_state=self._rnd_state)", "self.__class__(T=T, p1=p2, p2=p1, S=S,\n                                             rnd_state=self._rnd_state)")], "roles"),
 ("P22", "fire", [(N, "        self.source_part = self._get_updated_partition(self.source_part,\n                                                     meta_clustering.source_part)\n\n    def _update_to_fullpart(self):\n\n        self.target_part", "        self.source_part = self._get_updated_partition(self.source_part,\n                                                     meta_clustering.target_part)\n\n    def _update_to_fullpart(self):\n\n        self.target_part")], "side"),
 ("P22", "quiet", [(N, "            if n_meta_loop == 1:\n", "            first = n_meta_loop <= 1\n            if first:\n")], "first flag"),
 ("P22", "quiet", [(N, U, "                level_cluster = meta_new_part.node_to_cluster_dict[meta_node]\n                new_node_to_cluster_dict[node] = level_cluster\n")], "temp"),
 ("P22", "quiet", [(N, "                T, p1, p2, S = self._aggregate_clusters()\n", "                agg = self._aggregate_clusters()\n                T, p1, p2, S = agg\n")], "agg"),
 ("P22", "quiet", [(N, "        new_node_to_cluster_dict = dict()\n        # this is the state before moving nodes\n        for meta_node, original_nodes in enumerate(og_old_part.cluster_list):\n\n            for node in original_nodes:\n\n                # this is the state after moving nodes\n" + U,
   "        new_node_to_cluster_dict = {node: meta_new_part.node_to_cluster_dict[i]\n                                    for i, nodes in enumerate(og_old_part.cluster_list)\n                                    for node in nodes}\n")], "dictcomp"),
 ("P22", "quiet", [(N, "        new_node_to_cluster_dict = dict()\n        # this is the state before moving nodes\n        for meta_node, original_nodes in enumerate(og_old_part.cluster_list):\n\n            for node in original_nodes:\n\n                # this is the state after moving nodes\n" + U,
   "        new_node_to_cluster_dict = dict()\n        for meta_node in range(len(og_old_part.cluster_list)):\n            for node in og_old_part.cluster_list[meta_node]:\n                new_node_to_cluster_dict[node] = meta_new_part.node_to_cluster_dict[meta_node]\n")], "range"),
]

_N = "network_clustering.py"
CASES += [
 ("P22", "fire", [(_N, "        self.partition_progress.append(deepcopy(self.source_part))\n", "        self.partition_progress.append(self.source_part)\n")], "progress by reference"),
 ("P22", "fire", [(_N, "        self.partition_progress.append(deepcopy(self.source_part))\n", "        self.partition_progress.append(deepcopy(self.partition))\n")], "progress of the stale partition"),
 ("P22", "fire", [(_N, '        if not hasattr(self,"partition_progress"):\n            self.partition_progress = []\n', '        self.partition_progress = []\n')], "progress forgotten"),
 ("P22", "fire", [(_N, "                meta_clustering = self.__class__(T=T, p1=p1, p2=p2, S=S,\n                                             rnd_state=self._rnd_state)\n\n            if save_progress:\n                self._save_progress()\n", "                meta_clustering = self.__class__(T=T, p1=p1, p2=p2, S=S,\n                                             rnd_state=self._rnd_state)\n\n                if save_progress:\n                    self._save_progress()\n")], "last level not recorded"),
 ("P22", "fire", [(_N, "            #update original node partition\n", "            if save_progress:\n                self._save_progress()\n            #update original node partition\n"), (_N, "                                             rnd_state=self._rnd_state)\n\n            if save_progress:\n                self._save_progress()\n", "                                             rnd_state=self._rnd_state)\n")], "recorded before the update"),
 ("P22", "fire", [(_N, "        if save_progress:\n            self._save_progress()\n\n        # if the auto", "        # if the auto")], "start not recorded"),
 ("P22", "quiet", [(_N, "        self.partition_progress.append(deepcopy(self.source_part))\n\n        self.stability_progress.append(self.compute_stability())\n", "        current = deepcopy(self.source_part)\n        value = self.compute_stability()\n        self.stability_progress.append(value)\n        self.partition_progress.append(current)\n")], "named values"),
 ("P22", "quiet", [(_N, "            #update original node partition\n            if n_meta_loop == 1:", "            #update original node partition\n            first = n_meta_loop == 1\n            if first:")], "named first"),
]
