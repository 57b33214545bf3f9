N = "temporal_network.py"
INST0 = "                    if A[event.source_nodes, event.target_nodes] != 1:\n                        A[event.source_nodes, event.target_nodes] = 1\n                        A[event.target_nodes, event.source_nodes] = 1\n\n                        degrees[event.source_nodes] += 1\n                        degrees[event.target_nodes] += 1\n\n                elif"
TAIL = """                # update self loops
                if degrees[event.source_nodes] == 0:
                    S.data[event.source_nodes] = 1
                    Dm1.data[event.source_nodes] = 1
                else:
                    S.data[event.source_nodes] = 0
                    Dm1.data[event.source_nodes] = 1/degrees[event.source_nodes]

                if degrees[event.target_nodes] == 0:
                    S.data[event.target_nodes] = 1
                    Dm1.data[event.target_nodes] = 1
                else:
                    S.data[event.target_nodes] = 0
                    Dm1.data[event.target_nodes] = 1/degrees[event.target_nodes]
"""
ELIF = """                elif A[event.source_nodes, event.target_nodes] > 0:
                    A[event.source_nodes, event.target_nodes] = 0
                    A[event.target_nodes, event.source_nodes] = 0

                    degrees[event.source_nodes] -= 1
                    degrees[event.target_nodes] -= 1
"""
def F(label, *ed): return ("P24", "fire", [(N, a, b) for a, b in ed], label)
def Q(label, *ed): return ("P24", "quiet", [(N, a, b) for a, b in ed], label)
CASES = [
 Q("initial time at the start", ("t_km1 = self.times[self._k_start_laplacians-1]", "t_km1 = self.times[self._k_start_laplacians]")),
 F("tail only source", (TAIL, TAIL.split("                if degrees[event.target_nodes]")[0])),
 F("end leaves the other direction", (ELIF, ELIF.replace("                    A[event.target_nodes, event.source_nodes] = 0\n", ""))),
 F("degree of target not decremented", (ELIF, ELIF.replace("                    degrees[event.target_nodes] -= 1\n", ""))),
 F("end unguarded", (ELIF, ELIF.replace("elif A[event.source_nodes, event.target_nodes] > 0:", "else:"))),
 F("start unguarded", (INST0, INST0.replace("if A[event.source_nodes, event.target_nodes] != 1:", "if True:"))),
 F("self loop kept", (TAIL, TAIL.replace("                    S.data[event.target_nodes] = 0\n", ""))),
 F("self loop when degree 1", (TAIL, TAIL.replace("if degrees[event.target_nodes] == 0:", "if degrees[event.target_nodes] <= 1:"))),
 F("update only on end", (TAIL, "                if is_start:\n                    continue\n" + TAIL)),
 F("formula A @", ("self.laplacians.append(I - Dm1 @ (Acsc + S))\n            if save_adjacencies:\n                self.adjacencies.append(A.copy())\n\n        t_end", "self.laplacians.append(I - Dm1 @ (Acsc - S))\n            if save_adjacencies:\n                self.adjacencies.append(A.copy())\n\n        t_end")),
 F("alias", ("self.laplacians.append(I - Dm1 @ (Acsc + S))\n            if save_adjacencies:\n                self.adjacencies.append(A.copy())\n\n        t_end", "self.laplacians.append(I - Dm1 @ (Acsc + S))\n            if save_adjacencies:\n                self.adjacencies.append(A)\n\n        t_end")),
 F("initial mask >=", ("(self.events_table.ending_times > \\\n", "(self.events_table.ending_times >= \\\n")),
 F("initial mask <", ("(self.events_table.starting_times <= \\\n                                                t_km1)", "(self.events_table.starting_times < \\\n                                                t_km1)")),
 F("initial time", ("t_km1 = self.times[self._k_start_laplacians-1]", "t_km1 = self.times[self._k_start_laplacians-2]")),
 F("inst: degrees not reset", ("            degrees.fill(0.0)\n", "")),
 F("inst: S reset to 0", ("            S.data.fill(1.0)\n", "            S.data.fill(0.0)\n")),
 F("inst next", ("utimes[k] : utimes[k+1]", "utimes[k] : utimes[k]+1")),
 F("grid roles", ("self.events_table.reset_index()[[\"ending_times\",\"index\"]]", "self.events_table.reset_index()[[\"starting_times\",\"index\"]]")),
 F("is_start rows", ("self.time_grid[\"is_start\"] = False\n        self.time_grid.loc[0:self.events_table.shape[0]-1,\"is_start\"] = True", "self.time_grid[\"is_start\"] = True\n        self.time_grid.loc[0:self.events_table.shape[0]-1,\"is_start\"] = False")),
 F("relabel targets from sources", ("target_nodes = [self.label_to_node_dict[n] for n in target_nodes]", "target_nodes = [self.label_to_node_dict[n] for n in source_nodes]")),
 F("unsorted labels", ("enumerate(sorted(all_nodes))}\n                self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}\n\n                source_nodes", "enumerate(all_nodes)}\n                self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}\n\n                source_nodes")),
 F("end_time", ("self.end_time = self.events_table.ending_times.max()\n\n        self.events_table[\"durations\"]", "self.end_time = self.events_table.starting_times.max()\n\n        self.events_table[\"durations\"]")),
 F("static overlap", ("A + A.T", "A")),
 Q("endpoint locals", (TAIL, "                for node in (event.source_nodes, event.target_nodes):\n                    if degrees[node] == 0:\n                        S.data[node] = 1\n                        Dm1.data[node] = 1\n                    else:\n                        S.data[node] = 0\n                        Dm1.data[node] = 1/degrees[node]\n")),
 Q("swap order", (ELIF, ELIF.replace("                    A[event.source_nodes, event.target_nodes] = 0\n                    A[event.target_nodes, event.source_nodes] = 0\n", "                    A[event.target_nodes, event.source_nodes] = 0\n                    A[event.source_nodes, event.target_nodes] = 0\n"))),
 Q("helper", (TAIL, "                self._upd(degrees, S, Dm1, event.source_nodes)\n                self._upd(degrees, S, Dm1, event.target_nodes)\n"), ("    def _drop_derived_matrices(self):", "    @staticmethod\n    def _upd(deg, S, D, n):\n        isolated = deg[n] == 0\n        S.data[n] = 1 if isolated else 0\n        D.data[n] = 1 if isolated else 1/deg[n]\n\n    def _drop_derived_matrices(self):")),
 Q("locals s,t", (ELIF, "                elif A[event.source_nodes, event.target_nodes] > 0:\n                    s, t = event.source_nodes, event.target_nodes\n                    A[s, t] = 0\n                    A[t, s] = 0\n                    degrees[s] = degrees[s] - 1\n                    degrees[t] = degrees[t] - 1\n")),
 Q("T_D named", ("self.laplacians.append(I - Dm1 @ (Acsc + S))\n            if save_adjacencies:\n                self.adjacencies.append(A.copy())\n\n        t_end", "T_D = Dm1 @ (S + Acsc)\n            L_k = I - T_D\n            self.laplacians.append(L_k)\n            if save_adjacencies:\n                self.adjacencies.append(A.copy())\n\n        t_end")),
 Q("nested if", (ELIF, ELIF.replace("                elif A[event.source_nodes, event.target_nodes] > 0:\n", "                elif A[event.source_nodes, event.target_nodes] != 0:\n"))),
 Q("mask split", ("            mask_ini = (self.events_table.starting_times <= \\\n                                                t_km1) & \\\n                        (self.events_table.ending_times > \\\n                                                t_km1)\n", "            began = self.events_table.starting_times <= t_km1\n            ongoing = self.events_table.ending_times > t_km1\n            mask_ini = began & ongoing\n")),
 Q("comprehension to loop", ("            events_k = [self.events_table.loc[mid,[\"source_nodes\",\"target_nodes\"]].astype(np.int64) \\\n                                        for mid in meet_id.values]\n", "            events_k = []\n            for mid in meet_id.values:\n                events_k.append(self.events_table.loc[mid, [\"source_nodes\", \"target_nodes\"]].astype(np.int64))\n")),
 Q("merge ite", ("ev1 = ev1._replace(ending_times=max(ev1.ending_times,\n                                                            ev2.ending_times))", "last = ev1.ending_times if ev1.ending_times > ev2.ending_times else ev2.ending_times\n                        ev1 = ev1._replace(ending_times=last)")),
 Q("inst fresh arrays", ("            degrees.fill(0.0)\n", "            degrees[:] = 0.0\n")),
 Q("enumerate labels", ("                self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}\n\n                source_nodes", "                self.node_to_label_dict = dict()\n                for l, n in self.label_to_node_dict.items():\n                    self.node_to_label_dict[n] = l\n\n                source_nodes")),
]
